#[macro_use]
mod conv;
mod fw;
mod gen;
mod p_attr;
mod p_digest;
mod p_enc;
mod p_hook;
mod p_life;
mod p_msg;
mod p_set;
mod p_wire;
mod refm;
mod sets_gen;

use fw::{Ctx, Tier};

#[inline(never)]
fn deep(n: u64) -> u64 {
    let a = std::hint::black_box([n; 512]);
    if n == u64::MAX {
        return 0;
    }
    deep(std::hint::black_box(n + 1)) + a[(n % 512) as usize]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: mc <property> <quick|thorough> [--replay space#idx]");
        std::process::exit(2);
    }
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let only = match args.iter().position(|a| a == "--replay") {
        Some(i) => {
            let a = args.get(i + 1).cloned().unwrap_or_default();
            let (s, n) = a.rsplit_once('#').unwrap_or((a.as_str(), "0"));
            Some((s.to_string(), n.parse().unwrap_or(0)))
        }
        None => None,
    };
    if let Err(e) = refm::self_test() {
        eprintln!("model self-test failed: {}", e);
        std::process::exit(2);
    }
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| ".".into());
    let mut ctx = Ctx::new(&args[1], tier, &verif, only);
    match args[1].as_str() {
        "C01" => p_msg::c01(&mut ctx),
        "C02" => p_msg::c02(&mut ctx),
        "C03" => p_msg::c03(&mut ctx),
        "C07" => p_wire::c07(&mut ctx),
        "C20" => p_wire::c20(&mut ctx),
        "C24" => p_wire::c24(&mut ctx),
        "C14" => p_msg::c14(&mut ctx),
        "C04" => p_wire::c04(&mut ctx),
        "C05" => p_wire::c05(&mut ctx),
        "C11" => p_attr::c11(&mut ctx),
        "C12" => p_attr::c12(&mut ctx),
        "C13" => p_attr::c13(&mut ctx),
        "C19" => p_attr::c19(&mut ctx),
        "C09" => p_digest::c09(&mut ctx),
        "C10" => p_digest::c10(&mut ctx),
        "C06" => p_enc::c06(&mut ctx),
        "C08" => p_enc::c08(&mut ctx),
        "C15" => p_enc::c15(&mut ctx),
        "C16" => p_hook::c16(&mut ctx),
        "C25" => p_hook::c25(&mut ctx),
        "C18" => p_set::c18(&mut ctx),
        "C21" => p_set::c21(&mut ctx),
        "C22" => p_set::c22(&mut ctx),
        "C23" => p_set::c23(&mut ctx),
        "C17" => p_msg::c17(&mut ctx),
        "C26" => p_life::c26(&mut ctx),
        "C27" => p_life::c27(&mut ctx),
        "C28" => p_life::c28(&mut ctx),
        "C29" => p_life::c29(&mut ctx),
        // the machinery's own failure paths (tools/selftest.sh)
        "X01" => ctx.space("abort", "", 100, |_, i| if i == 50 { std::process::abort() }),
        "X02" => ctx.space("overflow", "", 100, |_, i| if i == 50 { println!("{}", deep(i)) }),
        "X03" => ctx.space("fault", "", 100, |_, i| if i == 50 { unsafe { std::ptr::write_volatile(std::hint::black_box(8 as *mut u8), 1) } }),
        "X04" => ctx.space("memory", "", 100, |_, i| if i == 50 { std::hint::black_box(vec![1u8; 4 << 30]); }),
        "X05" => ctx.space("hang", "", 100, |_, i| while i == 50 && std::hint::black_box(true) {}),
        "X06" => ctx.space("panic", "", 100, |_, i| if i == 50 { panic!("planned") }),
        other => {
            eprintln!("unknown property {}", other);
            std::process::exit(2);
        }
    }
    std::process::exit(ctx.finish());
}
