// ---- BaseOps
//@ impl src/target/ext/base/mod.rs BaseOps<'a, A, E> ==> impl<'a> BaseOps<'a>
//@ fn resume_ops
//@ opt retty=Option<ResumeOps<'a>>
//@ ret r
//@ spec
    ensures
        match self {
            BaseOps::SingleThread(o) => (r is Some <==> o@.has.support_resume) && match r {
                None => final(o)@ == o@,
                Some(ResumeOps::SingleThread(n)) => n@ == o@ && final(o)@ == final(n)@,
                _ => false,
            },
            BaseOps::MultiThread(o) => (r is Some <==> o@.has.support_resume) && match r {
                None => final(o)@ == o@,
                Some(ResumeOps::MultiThread(n)) => n@ == o@ && final(o)@ == final(n)@,
                _ => false,
            },
        },
//@ end
//@ endimpl
