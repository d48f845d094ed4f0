use crate::engine::Prop;
mod bits;
mod bytes;
mod container;
mod format;
mod obj;
mod roundtrip;
mod stable;
mod transform;
mod verify;
pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(roundtrip::PROPS.iter());
    v.extend(verify::PROPS.iter());
    v.extend(bytes::PROPS.iter());
    v.extend(format::PROPS.iter());
    v.extend(transform::PROPS.iter());
    v.extend(obj::PROPS.iter());
    v.extend(container::PROPS.iter());
    v.extend(stable::PROPS.iter());
    v.extend(bits::PROPS.iter());
    v.sort_by_key(|p| p.id);
    v
}
