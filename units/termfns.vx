//@ impl src/target/ext/extended_mode.rs ShouldTerminate
//@ fn into_bool
//@ ret r
//@ spec
    ensures r == (self is Yes),
//@ end
//@ endimpl
