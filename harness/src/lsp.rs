//! A language-server client that talks to `ginko_ls` over its standard streams.
use crate::engine::{Failure, R};
use crate::{ensure, fail};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

/// How long an answer may take. Answers take milliseconds; the server has 60 s of CPU time.
const PATIENCE: Duration = Duration::from_secs(90);

pub struct Client {
    child: Child,
    tx: Option<Sender<Vec<u8>>>,
    rx: Receiver<Value>,
    stderr: PathBuf,
    next: i64,
    /// the diagnostics last published, by URI
    pub published: BTreeMap<String, Vec<Value>>,
    pub publishes: usize,
    /// by the JSON text of the id
    pub answers: BTreeMap<String, Value>,
    pub odd: Vec<String>,
}

impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn read_message(r: &mut impl BufRead) -> Option<Value> {
    let mut len = None;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let line = line.trim();
        if line.is_empty() {
            break;
        }
        if let Some(v) = line.to_ascii_lowercase().strip_prefix("content-length:") {
            len = v.trim().parse::<usize>().ok();
        }
    }
    let mut buf = vec![0; len?];
    r.read_exact(&mut buf).ok()?;
    // outlines of deeply nested trees are deeply nested
    let mut d = serde_json::Deserializer::from_slice(&buf);
    d.disable_recursion_limit();
    d.into_iter::<Value>().next()?.ok()
}

impl Client {
    /// Starts the server without sending anything
    pub fn spawn(bins: &Path, scratch: &Path, threads: usize, args: &[String]) -> Client {
        use std::os::unix::process::CommandExt;
        let stderr = scratch.join("stderr");
        let mut cmd = Command::new(bins.join("ginko_ls"));
        cmd.args(args)
            .env("TOKIO_WORKER_THREADS", threads.to_string())
            .env_remove("RUST_LOG")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&stderr).expect("stderr"));
        unsafe {
            cmd.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("cannot run ginko_ls");
        let mut stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, jobs) = channel::<Vec<u8>>();
        std::thread::spawn(move || {
            for j in jobs {
                if stdin.write_all(&j).and_then(|_| stdin.flush()).is_err() {
                    break;
                }
            }
        });
        let (out, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            while let Some(v) = read_message(&mut r) {
                if out.send(v).is_err() {
                    break;
                }
            }
        });
        Client {
            child,
            tx: Some(tx),
            rx,
            stderr,
            next: 1000,
            published: BTreeMap::new(),
            publishes: 0,
            answers: BTreeMap::new(),
            odd: vec![],
        }
    }

    pub fn send(&mut self, v: &Value) {
        let body = v.to_string();
        if let Some(tx) = &self.tx {
            let _ = tx.send(format!("Content-Length: {}\r\n\r\n{}", body.len(), body).into_bytes());
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        let mut v = json!({"jsonrpc": "2.0", "method": method, "params": params});
        if params.is_null() {
            v.as_object_mut().unwrap().remove("params");
        }
        self.send(&v);
    }

    pub fn request(&mut self, method: &str, params: Value) -> String {
        self.next += 1;
        let id = self.next;
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params});
        if params.is_null() {
            v.as_object_mut().unwrap().remove("params");
        }
        self.send(&v);
        id.to_string()
    }

    fn handle(&mut self, v: Value) {
        if let Some(m) = v.get("method").and_then(|m| m.as_str()) {
            if m == "textDocument/publishDiagnostics" {
                let uri = v["params"]["uri"].as_str().unwrap_or("?").to_string();
                let ds = v["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                self.published.insert(uri, ds);
                self.publishes += 1;
            }
            if let Some(id) = v.get("id") {
                let answer = json!({"jsonrpc": "2.0", "id": id, "result": null});
                self.send(&answer);
            }
        } else if let Some(id) = v.get("id") {
            let key = id.to_string();
            if v.get("result").is_some() == v.get("error").is_some() {
                self.odd.push(format!("the answer {v} does not have either a result or an error"));
            }
            if let Some(old) = self.answers.insert(key, v.clone()) {
                self.odd.push(format!("two answers to one request: {old} and {v}"));
            }
        }
    }

    fn dead(&mut self) -> Failure {
        let start = Instant::now();
        let mut status = None;
        while start.elapsed() < Duration::from_secs(5) {
            if let Ok(Some(s)) = self.child.try_wait() {
                status = Some(s);
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let err = std::fs::read_to_string(&self.stderr).unwrap_or_default();
        let err: String = err.chars().take(600).collect();
        Failure::new(match status {
            Some(s) => format!("the server terminated ({s}): {err}"),
            None => format!("the server closed its output: {err}"),
        })
    }

    /// The answer to a request
    pub fn wait(&mut self, id: &str) -> R<Value> {
        let deadline = Instant::now() + PATIENCE;
        loop {
            if let Some(v) = self.answers.get(id) {
                return Ok(v.clone());
            }
            let left = deadline.saturating_duration_since(Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(v) => self.handle(v),
                Err(RecvTimeoutError::Timeout) => fail!("a request is not answered within {} s", PATIENCE.as_secs()),
                Err(RecvTimeoutError::Disconnected) => return Err(self.dead()),
            }
        }
    }

    /// The result of a request that must succeed
    pub fn ask(&mut self, method: &str, params: Value) -> R<Value> {
        let id = self.request(method, params);
        let v = self.wait(&id)?;
        self.answers.remove(&id);
        match v.get("result") {
            Some(r) => Ok(r.clone()),
            None => fail!("{method} is answered with {v}"),
        }
    }

    /// Returns the capabilities of the server
    pub fn initialize(&mut self, options: Option<Value>) -> R<Value> {
        self.initialize_as(json!({}), options)
    }

    /// `client` tells what the client says about itself
    pub fn initialize_as(&mut self, client: Value, options: Option<Value>) -> R<Value> {
        let mut params = json!({"processId": null, "rootUri": null, "capabilities": {}});
        for (k, v) in client.as_object().unwrap() {
            params[k] = v.clone();
        }
        if let Some(o) = options {
            params["initializationOptions"] = o;
        }
        let mut r = self.ask("initialize", params)?;
        self.notify("initialized", json!({}));
        let caps = r["capabilities"].take();
        let enc = &caps["positionEncoding"];
        ensure!(enc.is_null() || enc == "utf-16", "positions are announced as {enc}");
        Ok(caps)
    }

    pub fn symbols(&mut self, uri: &str) -> R<Value> {
        self.ask("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}))
    }

    /// Waits until everything sent so far is processed and nothing more is published
    pub fn settle(&mut self) -> R {
        let mut quiet = 0;
        while quiet < 5 {
            let before = self.publishes;
            self.symbols("file:///gv-no-such-file")?;
            quiet = if self.publishes == before { quiet + 1 } else { 0 };
        }
        Ok(())
    }

    /// The orderly end of a session. Nothing may be left to be published: the protocol library
    /// never ends when it is told to exit while a notification is still waiting to be sent.
    pub fn finish(mut self) -> R {
        self.settle()?;
        let id = self.request("shutdown", Value::Null);
        self.wait(&id)?;
        if let Some(o) = self.odd.first() {
            fail!("{o}");
        }
        self.notify("exit", Value::Null);
        self.tx = None;
        let start = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                let err = std::fs::read_to_string(&self.stderr).unwrap_or_default();
                ensure!(s.success(), "the server ends with {s} after an orderly shutdown: {err}");
                return Ok(());
            }
            ensure!(start.elapsed() < PATIENCE, "the server does not end within {} s of exit", PATIENCE.as_secs());
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}

pub fn uri(path: &Path) -> String {
    let mut s = String::from("file://");
    for b in path.as_os_str().as_encoded_bytes() {
        let c = *b as char;
        if c.is_ascii_alphanumeric() || "/-._~".contains(c) {
            s.push(c);
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}

pub fn path_of(uri: &str) -> Option<PathBuf> {
    let rest = uri.strip_prefix("file://")?.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < rest.len() {
        if rest[i] == b'%' && i + 2 < rest.len() {
            let h = std::str::from_utf8(&rest[i + 1..i + 3]).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(rest[i]);
            i += 1;
        }
    }
    Some(PathBuf::from(String::from_utf8(out).ok()?))
}
