//! `dst check <ID>` runs a property's simulation batch; `dst replay <FILE>`
//! re-executes a recorded violation; `worker` and `attempt` are the
//! subprocesses these two use.

mod ctx;
mod gen;
mod opts;
mod props;
mod res;
mod runner;
mod session;

#[global_allocator]
static ALLOC: ctx::Counting = ctx::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id] => runner::check(id),
        ["worker", rest @ ..] => runner::worker(rest),
        ["attempt"] => runner::attempt(),
        ["replay", file] => runner::replay(file),
        ["log", id, seed, from, count] => runner::event_log(id, seed, from, count),
        ["list"] => {
            props::all().iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: dst check ID | replay FILE | log ID SEED FROM COUNT | list");
            2
        }
    };
    std::process::exit(code);
}
