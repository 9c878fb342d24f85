//! Tagged encoding of JSON values that TLC can compare: ["s",str] ["n",lexical] ["b","true"] ["0"]
//! ["a",[..]] ["o",[[key,value],..]] (entries in order).
use json_syntax::object::Object;
use json_syntax::{Print, Value};

pub fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn q(s: &str) -> String {
    let mut o = String::new();
    quote(s, &mut o);
    o
}

pub fn enc_into(v: &Value, out: &mut String) {
    match v {
        Value::Null => out.push_str("[\"0\"]"),
        Value::Boolean(b) => out.push_str(if *b { "[\"b\",\"true\"]" } else { "[\"b\",\"false\"]" }),
        Value::Number(n) => {
            out.push_str("[\"n\",");
            quote(n.as_str(), out);
            out.push(']');
        }
        Value::String(s) => {
            out.push_str("[\"s\",");
            quote(s, out);
            out.push(']');
        }
        Value::Array(a) => {
            out.push_str("[\"a\",[");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                enc_into(x, out);
            }
            out.push_str("]]");
        }
        Value::Object(o) => {
            out.push_str("[\"o\",[");
            for (i, e) in o.entries().iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push('[');
                quote(e.key.as_str(), out);
                out.push(',');
                enc_into(&e.value, out);
                out.push(']');
            }
            out.push_str("]]");
        }
    }
}

pub fn enc(v: &Value) -> String {
    let mut s = String::new();
    enc_into(v, &mut s);
    s
}

pub fn get<'a>(o: &'a Object, k: &str) -> Option<&'a Value> {
    o.get(k).next()
}
pub fn gstr<'a>(o: &'a Object, k: &str) -> Option<&'a str> {
    get(o, k).and_then(|v| v.as_str())
}
pub fn gbool(o: &Object, k: &str) -> Option<bool> {
    get(o, k).and_then(|v| v.as_boolean())
}

/// Escapes non-ASCII of a compactly printed JSON value (TLC reads ASCII only reliably).
pub fn raw(v: &Value) -> String {
    let s = v.compact_print().to_string();
    let mut out = String::new();
    for c in s.chars() {
        if (c as u32) > 0x7e {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        } else {
            out.push(c)
        }
    }
    out
}
