use nanvm_lib::range_map::{from_one, from_range, merge, merge_list, RangeMap, State};

type M = RangeMap<u32, State<u8>>;

pub fn root_r_get(a: M, key: u32) -> Option<u8> {
    a.get(key).value
}
pub fn root_r_merge(a: M, b: M, key: u32) -> Option<u8> {
    merge(a, b).get(key).value
}
pub fn root_r_list(a: M, b: M, c: M, key: u32) -> Option<u8> {
    let mut v = Vec::new();
    v.push(a);
    v.push(b);
    v.push(c);
    merge_list(v).get(key).value
}
pub fn root_r_range(lo: char, hi: char, key: char) -> Option<u8> {
    from_range(lo..=hi, 1u8).get(key).value
}
pub fn root_r_one(c: char, key: char) -> Option<u8> {
    from_one(c, 1u8).get(key).value
}
