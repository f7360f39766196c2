@raw
impl NodeIndex<u32> {
    pub fn end() -> (r: Self) ensures r.i == u32::MAX { NodeIndex { i: u32::MAX } }
    pub fn index(&self) -> (r: usize) ensures r == self.i { self.i as usize }
    pub fn new(x: usize) -> (r: Self) requires x <= u32::MAX ensures r.i == x { NodeIndex { i: x as u32 } }
}
@end
