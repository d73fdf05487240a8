use nanvm_lib::parser::path::{concat, normalize, split};

pub fn root_normalize(p: String) -> String {
    normalize(&p)
}

pub fn root_concat(a: String, b: String) -> String {
    concat(&a, &b)
}

/// the path that `spec` denotes inside the file `file`
pub fn root_relative(file: String, spec: String) -> String {
    concat(split(&file).0, &spec)
}

pub fn root_split(p: String) -> (String, String) {
    let (a, b) = split(&p);
    (a.to_string(), b.to_string())
}
