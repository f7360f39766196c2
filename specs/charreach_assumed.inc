@type util/bitfield.rs BitField256 Clone Copy
@end
@type util/charreach.rs CharReach Clone Copy
@end
@raw
impl CharReach {
    /// Membership.  What the operations do to it is proved in the unit "sets"; here it is all there is to a set.
    pub uninterp spec fn has(&self, c: u8) -> bool;
}
@end
@include cr_specs.inc
@raw
#[verifier::external_body]
pub fn vx_default_charreach() -> (r: CharReach) ensures cr_empty(r) { unimplemented!() }
impl CharReach {
    pub fn default() -> (r: CharReach) ensures cr_empty(r) { vx_default_charreach() }
}
@end
@assume util/charreach.rs CharReach::test from sets.vs
@end
@assume util/charreach.rs CharReach::set from sets.vs
@end
@assume util/charreach.rs CharReach::none from sets.vs
@end
@assume util/charreach.rs CharReach::find_first from sets.vs
@end
@assume util/charreach.rs CharReach::find_next from sets.vs
@end
@assume util/charreach.rs CharReach::any from sets.vs
@end
@assume util/charreach.rs CharReach::all from sets.vs
@end
@assume util/charreach.rs CharReach::find_last from sets.vs
@end
@assume util/charreach.rs CharReach::from_char from sets.vs
@end
@assume util/charreach.rs CharReach::from_range from sets.vs
@end
@assume util/charreach.rs CharReach::set_range from sets.vs
@end
@assume util/charreach.rs CharReach::dot from sets.vs
@end
@assume util/charreach.rs CharReach::reset_all from sets.vs
@end
@assume util/charreach.rs CharReach::set_all from sets.vs
@end
@assume util/charreach.rs CharReach::reset from sets.vs
@end
@assume util/charreach.rs CharReach::flip_all from sets.vs
@end
@assume util/charreach.rs CharReach::flip from sets.vs
@end
@assume util/charreach.rs CharReach::is_subset_of from sets.vs
@end
@assume util/charreach.rs CharReach::overlaps from sets.vs
@end
@assume util/charreach.rs CharReach::is_ascii from sets.vs
@end
@assume util/charreach.rs CharReach::is_utf8_start from sets.vs
@end
