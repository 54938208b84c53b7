use crate::runner::Prop;
mod concurrency;
mod document;
mod events;
mod exports;
mod format;
mod fragments;
mod highlight;
mod hostile;
mod integrity;
mod lists;
mod locality;
mod longops;
mod manager;
pub mod markup;
mod search;
mod tables;
mod text;
mod undo;
mod views;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(concurrency::props());
    v.extend(document::props());
    v.extend(events::props());
    v.extend(exports::props());
    v.extend(format::props());
    v.extend(fragments::props());
    v.extend(highlight::props());
    v.extend(hostile::props());
    v.extend(integrity::props());
    v.extend(lists::props());
    v.extend(locality::props());
    v.extend(longops::props());
    v.extend(manager::props());
    v.extend(markup::props());
    v.extend(search::props());
    v.extend(tables::props());
    v.extend(text::props());
    v.extend(undo::props());
    v.extend(views::props());
    v
}
