fn main(){ let fs:[(&str,fn(char)->bool);6]=[("alphabetic",|c|c.is_alphabetic()),("numeric",|c|c.is_numeric()),("alphanumeric",|c|c.is_alphanumeric()),("uppercase",|c|c.is_uppercase()),("lowercase",|c|c.is_lowercase()),("control",|c|c.is_control())];
 println!("\"\"\"Character classes of the Rust standard library, as intervals of code points (written by tools/uni.rs).\"\"\"");
 for (n,f) in fs { let mut v:Vec<(u32,u32)>=vec![]; for i in 0..0x110000u32 { if let Some(c)=char::from_u32(i){ if f(c){ match v.last_mut(){ Some(l) if l.1+1==i=>l.1=i, _=>v.push((i,i))}}}} println!("{n} = {:?}",v);} }
