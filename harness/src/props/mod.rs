use crate::Prop;
mod header;
mod hostile;
mod image;
mod render;
mod stream;
mod table;
mod tiles;
mod walk;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(walk::props());
    v.extend(image::props());
    v.extend(table::props());
    v.extend(tiles::props());
    v.extend(header::props());
    v.extend(stream::props());
    v.extend(hostile::props());
    v.extend(render::props());
    v
}
