use doodle::helper::*; use doodle::*; use doodle::decoder::Compiler;
fn main(){
 let which: usize = std::env::args().nth(1).unwrap().parse().unwrap();
 let b0=||Format::Byte(byte_set::ByteSet::from_iter([0u8]));
 let fs=[repeat_count(Expr::U8(1), repeat(b0())),
   repeat_count(Expr::U8(1), alts([("A",b0()),("B",Format::EMPTY)])),
   repeat_count(Expr::U8(1), repeat_between(Expr::U32(0),Expr::U32(1),b0())),
   repeat_count(Expr::U8(1), Format::Tuple(vec![repeat(b0()),Format::ANY_BYTE])),
 ];
 let m=FormatModule::new();
 println!("{:?}", Compiler::compile_program(&m,&fs[which]).map(|p|p.decoders[0].0.clone()));
}
