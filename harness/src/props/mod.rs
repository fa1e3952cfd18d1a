mod assets;
mod certs;
mod testing;
mod types;
mod header;
mod v1;
mod codec;
mod reader;
mod hashes;
mod lookup;
mod e2e;
mod httptree;
mod cel;
mod maps;
mod nested;
mod js;
mod canisters;
mod jscert;

pub fn all() -> Vec<crate::engine::Prop> {
    let mut v = vec![];
    v.extend(maps::props());
    v.extend(nested::props());
    v.extend(lookup::props());
    v.extend(codec::props());
    v.extend(certs::props());
    v.extend(hashes::props());
    v.extend(e2e::props());
    v.extend(types::props());
    v.extend(header::props());
    v.extend(v1::props());
    v.extend(httptree::props());
    v.extend(cel::props());
    v.extend(assets::props());
    v.extend(js::props());
    v.extend(jscert::props());
    v.extend(canisters::props());
    v.extend(testing::props());
    v
}
