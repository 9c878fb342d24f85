//! The HTTP loader against a scripted server on the loopback interface: the k-th request is
//! answered by the k-th response of the script (the last one for ever after).
use crate::enc::*;
use crate::ops::dump_remote;
use iref::IriBuf;
use json_ld::Loader;
use json_ld_core::loader::reqwest::{Options, ReqwestLoader};
use json_ld_core::Profile;
use json_syntax::object::Object;
use json_syntax::Value;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Default)]
struct Script {
    responses: Vec<Object>,
    requests: Vec<(String, String)>,
}

struct Server {
    script: Arc<Mutex<Script>>,
    runtime: tokio::runtime::Runtime,
    client: reqwest_middleware::ClientWithMiddleware,
}

fn serve(stream: &mut TcpStream, script: &Mutex<Script>) -> std::io::Result<()> {
    stream.set_read_timeout(Some(std::time::Duration::from_secs(5)))?;
    let mut head = Vec::new();
    let mut byte = [0u8; 1];
    while !head.ends_with(b"\r\n\r\n") && head.len() < 65536 {
        if stream.read(&mut byte)? == 0 {
            return Ok(());
        }
        head.push(byte[0]);
    }
    let text = String::from_utf8_lossy(&head).to_string();
    let mut lines = text.split("\r\n");
    let path = lines.next().unwrap_or("").split(' ').nth(1).unwrap_or("").to_string();
    let (mut host, mut accept) = (String::new(), String::new());
    for l in lines {
        if let Some((k, v)) = l.split_once(':') {
            match k.trim().to_ascii_lowercase().as_str() {
                "host" => host = v.trim().to_string(),
                "accept" => {
                    if !accept.is_empty() {
                        accept.push_str(", ")
                    }
                    accept.push_str(v.trim())
                }
                _ => (),
            }
        }
    }
    let r = {
        let mut s = script.lock().unwrap();
        let k = s.requests.len().min(s.responses.len() - 1);
        s.requests.push((format!("http://{host}{path}"), accept));
        s.responses[k].clone()
    };
    if gbool(&r, "drop").unwrap_or(false) {
        return Ok(());
    }
    let body: Vec<u8> = match gstr(&r, "hex") {
        Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
        None => gstr(&r, "body").unwrap_or("").as_bytes().to_vec(),
    };
    let status = get(&r, "status").map(|v| v.to_string()).unwrap_or_else(|| "200".into());
    let mut out = format!("HTTP/1.1 {status} X\r\nConnection: close\r\n");
    if let Some(Value::Array(hs)) = get(&r, "headers") {
        for h in hs {
            let h = h.as_array().unwrap();
            out.push_str(&format!("{}: {}\r\n", h[0].as_str().unwrap(), h[1].as_str().unwrap()));
        }
    }
    let cut = gbool(&r, "cut").unwrap_or(false);
    let mut out = out.into_bytes();
    if gbool(&r, "chunked").unwrap_or(false) {
        out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        for c in body.chunks(7) {
            out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            out.extend_from_slice(c);
            out.extend_from_slice(b"\r\n");
        }
        if !cut {
            out.extend_from_slice(b"0\r\n\r\n");
        }
    } else {
        out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len() + if cut { 10 } else { 0 }).as_bytes());
        out.extend_from_slice(&body);
    }
    stream.write_all(&out)?;
    stream.flush()
}

fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let listener = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let addr = listener.local_addr().unwrap();
        let script: Arc<Mutex<Script>> = Default::default();
        let s = script.clone();
        std::thread::spawn(move || {
            for c in listener.incoming() {
                if let Ok(mut c) = c {
                    let _ = serve(&mut c, &s);
                }
            }
        });
        let runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let mut b = reqwest::Client::builder().no_proxy().timeout(std::time::Duration::from_secs(10));
        for h in ["a.example", "b.example"] {
            b = b.resolve(h, addr);
        }
        let client = reqwest_middleware::ClientBuilder::new(b.build().unwrap()).build();
        Server { script, runtime, client }
    })
}

/// {"url", "max", "profiles": [iri...], "script": [{status, headers, body | hex, cut, chunked, drop}...]}
pub fn run(case: &Object, requests: &mut Vec<String>) -> String {
    let s = server();
    {
        let mut sc = s.script.lock().unwrap();
        sc.requests.clear();
        sc.responses = get(case, "script").unwrap().as_array().unwrap().iter().map(|r| r.as_object().unwrap().clone()).collect();
    }
    let mut options = Options { client: s.client.clone(), ..Default::default() };
    if let Some(m) = get(case, "max") {
        options.max_redirections = m.to_string().parse().unwrap();
    }
    if let Some(Value::Array(ps)) = get(case, "profiles") {
        options.request_profile =
            ps.iter().map(|p| Profile::new(&IriBuf::new(p.as_str().unwrap().to_string()).unwrap())).collect();
    }
    let loader = ReqwestLoader::new_using(options);
    let url = IriBuf::new(gstr(case, "url").unwrap().to_string()).unwrap();
    let r = s.runtime.block_on(loader.load(&url));
    for (u, a) in &s.script.lock().unwrap().requests {
        requests.push(format!("[{},{}]", q(u), q(a)));
    }
    match r {
        Ok(d) => format!("[\"ok\",{}]", dump_remote(&d)),
        Err(e) => format!("[\"err\",{},{}]", q(e.target.as_str()), q(&e.cause.to_string())),
    }
}
