use crate::core::*;
pub mod bits;
pub mod dates;
pub mod decl;
pub mod decl_fb;
pub mod decl_num;
pub mod decl_text;
pub mod fb;
pub mod malformed;
pub mod num;
pub mod reent;
pub mod res;
pub mod strings;
pub mod text;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(bits::props());
    v.extend(fb::props());
    v.extend(strings::props());
    v.extend(text::props());
    v.extend(malformed::props());
    v.extend(dates::props());
    v.extend(decl::props());
    v.extend(decl_text::props());
    v.extend(decl_num::props());
    v.extend(decl_fb::props());
    v.extend(num::props());
    v.extend(reent::props());
    v.extend(res::props());
    v
}
