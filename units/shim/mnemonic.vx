// ---- the mnemonics of operators ----
verus! {
//@ rule __f.write_str(__s) => vx_write_str(__f, __s)
pub open spec fn op_text(o: Seq<char>, op: BinaryOp) -> Seq<char> {
    match op {
        BinaryOp::NotEq => o§ne§, BinaryOp::Eq => o§eq§, BinaryOp::Gt => o§gt§, BinaryOp::Lt => o§lt§,
        BinaryOp::Ge => o§ge§, BinaryOp::Le => o§le§, BinaryOp::Add => o§add§, BinaryOp::Sub => o§sub§,
        BinaryOp::Mul => o§mul§, BinaryOp::Div => o§div§, BinaryOp::Mod => o§mod§, BinaryOp::And => o§and§,
        BinaryOp::Or => o§or§, BinaryOp::Xor => o§xor§, BinaryOp::Shl => o§shl§, BinaryOp::Shr => o§shr§,
        BinaryOp::Sar => o§sar§,
    }
}
/// the mnemonic of an operator
pub open spec fn mnemonic(op: BinaryOp) -> Seq<char> { op_text(Seq::empty(), op) }
pub proof fn lemma_op_text()
    ensures forall|a: Seq<char>, op: BinaryOp| #[trigger] (a + mnemonic(op)) == op_text(a, op),
{
    assert forall|a: Seq<char>, op: BinaryOp| #[trigger] (a + mnemonic(op)) == op_text(a, op) by {
        assert(a + mnemonic(op) =~= op_text(a, op));
    }
}
impl VxShow for BinaryOp { open spec fn show(&self) -> Seq<char> { mnemonic(*self) } }
pub struct Formatter { pub ghost out: Seq<char> }
#[verifier::external_body]
pub fn vx_write_str(f: &mut Formatter, s: &str) -> (r: Result<(), IoError>)
    ensures r is Ok, final(f).out == old(f).out + s@,
{ unimplemented!() }
pub proof fn lemma_mnemonics()
    ensures
        "ne"@ == mnemonic(BinaryOp::NotEq),
        "eq"@ == mnemonic(BinaryOp::Eq),
        "gt"@ == mnemonic(BinaryOp::Gt),
        "lt"@ == mnemonic(BinaryOp::Lt),
        "ge"@ == mnemonic(BinaryOp::Ge),
        "le"@ == mnemonic(BinaryOp::Le),
        "add"@ == mnemonic(BinaryOp::Add),
        "sub"@ == mnemonic(BinaryOp::Sub),
        "mul"@ == mnemonic(BinaryOp::Mul),
        "div"@ == mnemonic(BinaryOp::Div),
        "mod"@ == mnemonic(BinaryOp::Mod),
        "and"@ == mnemonic(BinaryOp::And),
        "or"@ == mnemonic(BinaryOp::Or),
        "xor"@ == mnemonic(BinaryOp::Xor),
        "shl"@ == mnemonic(BinaryOp::Shl),
        "shr"@ == mnemonic(BinaryOp::Shr),
        "sar"@ == mnemonic(BinaryOp::Sar),
{
    reveal_strlit("ne"); assert("ne"@ =~= mnemonic(BinaryOp::NotEq));
    reveal_strlit("eq"); assert("eq"@ =~= mnemonic(BinaryOp::Eq));
    reveal_strlit("gt"); assert("gt"@ =~= mnemonic(BinaryOp::Gt));
    reveal_strlit("lt"); assert("lt"@ =~= mnemonic(BinaryOp::Lt));
    reveal_strlit("ge"); assert("ge"@ =~= mnemonic(BinaryOp::Ge));
    reveal_strlit("le"); assert("le"@ =~= mnemonic(BinaryOp::Le));
    reveal_strlit("add"); assert("add"@ =~= mnemonic(BinaryOp::Add));
    reveal_strlit("sub"); assert("sub"@ =~= mnemonic(BinaryOp::Sub));
    reveal_strlit("mul"); assert("mul"@ =~= mnemonic(BinaryOp::Mul));
    reveal_strlit("div"); assert("div"@ =~= mnemonic(BinaryOp::Div));
    reveal_strlit("mod"); assert("mod"@ =~= mnemonic(BinaryOp::Mod));
    reveal_strlit("and"); assert("and"@ =~= mnemonic(BinaryOp::And));
    reveal_strlit("or"); assert("or"@ =~= mnemonic(BinaryOp::Or));
    reveal_strlit("xor"); assert("xor"@ =~= mnemonic(BinaryOp::Xor));
    reveal_strlit("shl"); assert("shl"@ =~= mnemonic(BinaryOp::Shl));
    reveal_strlit("shr"); assert("shr"@ =~= mnemonic(BinaryOp::Shr));
    reveal_strlit("sar"); assert("sar"@ =~= mnemonic(BinaryOp::Sar));
}
impl BinaryOp {
//@ fn ir::values::BinaryOp@Display::fmt as=op_fmt
    ensures final(f).out == old(f).out + mnemonic(*self),
//@ entry
        proof { lemma_mnemonics(); }
//@ end
}
} // verus!
