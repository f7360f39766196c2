@assume util/charreach.rs CharReach::bitor_assign from sets.vs
@end
