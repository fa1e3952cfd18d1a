//! Programs, most of them run by node, that answer each line of JSON with another.
use serde_json::Value;
use std::{
    cell::RefCell,
    collections::HashMap,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

struct Node {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}

thread_local! {
    static NODES: RefCell<HashMap<String, Node>> = RefCell::new(HashMap::new());
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Has a driver (a script below VERIF_DIR with its argument, or one of our own programs) take one case. None: it ended without an answer.
pub fn ask(driver: &str, arg: &str, case: &Value) -> Option<Value> {
    NODES.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.entry(driver.to_string()).or_insert_with(|| {
            let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
            let script = driver.ends_with("js");
            let mut command = if script {
                Command::new("node")
            } else {
                Command::new(format!("{}/release/{driver}", std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{verif}/build/target"))))
            };
            if script {
                command.arg(format!("{verif}/{driver}")).arg(format!("{verif}/{arg}"));
            }
            let mut child = command
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("the program starts");
            let stdin = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            Node { child, stdin, out }
        });
        let mut line = case.to_string();
        line.push('\n');
        let mut answer = String::new();
        let ok = node.stdin.write_all(line.as_bytes()).and_then(|_| node.stdin.flush()).and_then(|_| node.out.read_line(&mut answer));
        let v: Option<Value> = ok.ok().and_then(|_| serde_json::from_str(&answer).ok());
        if v.as_ref().map_or(true, |v| v.get("trap").is_some()) {
            n.remove(driver);
        }
        v
    })
}
