//! Stand-in for the derive of NetworkBehaviour: polls every field and gives its events to the behaviour.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(NetworkBehaviour, attributes(behaviour))]
pub fn network_behaviour(item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let k = v.iter().position(|t| t.to_string() == "struct").expect("a struct");
    let name = v[k + 1].to_string();
    let fields: Vec<TokenTree> = match v.last().unwrap() {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => g.stream().into_iter().collect(),
        _ => panic!("named fields"),
    };
    let names: Vec<String> = fields
        .windows(2)
        .enumerate()
        .filter(|(k, w)| {
            matches!(&w[0], TokenTree::Ident(_))
                && matches!(&w[1], TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == proc_macro::Spacing::Alone)
                && (*k == 0 || !matches!(&fields[k - 1], TokenTree::Punct(p) if p.as_char() == ':'))
        })
        .map(|(_, w)| w[0].to_string())
        .collect();
    let polls: String = names
        .iter()
        .map(|n| format!("while let ::core::option::Option::Some(e) = self.{n}.sim_poll(cx) {{ ::libp2p::swarm::NetworkBehaviourEventProcess::inject_event(self, e); }}\n"))
        .collect();
    format!("impl ::libp2p::swarm::NetworkBehaviour for {name} {{ fn sim_poll_fields(&mut self, cx: &mut ::core::task::Context<'_>) {{ {polls} }} }}").parse().unwrap()
}
