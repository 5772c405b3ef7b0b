use crate::engine::Prop;
pub mod calls;
pub mod cli;
pub mod cost;
pub mod docs;
pub mod emit;
pub mod events;
pub mod flow;
pub mod input;
pub mod parse;
pub mod source;
pub mod spaces;
pub mod state;
pub mod stream;
pub mod total;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = vec![];
    v.extend(parse::all());
    v.extend(total::all());
    v.extend(stream::all());
    v.extend(input::all());
    v.extend(state::all());
    v.extend(emit::all());
    v.extend(docs::all());
    v.extend(cli::all());
    v.extend(flow::all());
    v.extend(calls::all());
    v.extend(cost::all());
    v.extend(source::all());
    v
}
pub fn get(id: &str) -> Box<dyn Prop> {
    all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}
