#![allow(clippy::all)]
mod core;
mod world;
mod model;
mod exec;
mod gen;
#[macro_use]
mod schemas { include!(env!("TTH_SCHEMAS")); }
mod parts;
mod reg;
mod show;
mod props;
mod runner;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  world::install_hook();
  let regs = reg::registry();
  let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
  if args.iter().any(|a| a == "--serve") { runner::serve(&regs); return }
  let pos = |n: &str| regs.iter().position(|r| r.desc.name == n);
  let twin = schemas::TWINS.iter().filter_map(|(g, x)| Some((pos(x)?, pos(g)?))).collect();
  let env = runner::Env {
    twin, peer: opt("--peer"), regs,
    seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
    tier: opt("--tier").unwrap_or("quick".into()),
    root: opt("--root").unwrap_or("/verif".into()),
    careful: args.iter().any(|a| a == "--careful"),
  };
  let code = if let Some(p) = opt("--replay") { runner::replay(&env, &p) }
  else {
    let id = opt("--prop").expect("--prop ID or --replay FILE");
    let specs = props::specs();
    runner::run(&env, specs.iter().find(|s| s.id == id).expect("no such property"))
  };
  std::process::exit(code);
}
