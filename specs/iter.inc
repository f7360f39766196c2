@raw
/// What a vector held by reference is walked with.
pub struct VxIter<'a, T> { pub v: &'a Vec<T>, pub k: usize }
impl<'a, T> VxIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).k <= old(self).v@.len()
        ensures
            final(self).v == old(self).v,
            match r { Some(x) => old(self).k < old(self).v@.len() && *x == old(self).v@[old(self).k as int] && final(self).k == old(self).k + 1, None => old(self).k == old(self).v@.len() && final(self).k == old(self).k },
    {
        if self.k < self.v.len() { let x = &self.v[self.k]; self.k += 1; Some(x) } else { None }
    }
    pub fn peekable(self) -> (r: Self) ensures r == self { self }
    pub fn peek(&mut self) -> (r: Option<&'a T>)
        requires old(self).k <= old(self).v@.len()
        ensures *final(self) == *old(self), match r { Some(x) => old(self).k < old(self).v@.len() && *x == old(self).v@[old(self).k as int], None => old(self).k == old(self).v@.len() },
    {
        if self.k < self.v.len() { Some(&self.v[self.k]) } else { None }
    }
}
pub fn vx_iter<T>(v: &Vec<T>) -> (r: VxIter<'_, T>) ensures r.v == v, r.k == 0 { VxIter { v, k: 0 } }
@end
