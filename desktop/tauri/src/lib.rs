//! Stand-in for the parts of tauri the desktop program uses: `program COMMAND SOURCE DEST` runs one
//! command and prints every event it emitted, and its answer, as lines of JSON.
use serde::Serialize;
use std::{future::Future, pin::Pin, sync::Arc, sync::Mutex};
pub use tauri_macros::{command, generate_handler};

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "tauri error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone)]
pub struct Window(Arc<Mutex<Vec<serde_json::Value>>>);
impl Window {
    pub fn emit<S: Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        let payload = serde_json::to_value(payload).map_err(|_| Error)?;
        self.0.lock().unwrap().push(serde_json::json!({ "event": event, "payload": payload }));
        Ok(())
    }
}

pub trait Manager {
    fn app_handle(&self) -> AppHandle;
    fn emit_all<S: Serialize + Clone>(&self, event: &str, payload: S) -> Result<()>;
}
impl Manager for Window {
    fn app_handle(&self) -> AppHandle {
        AppHandle(self.clone())
    }
    fn emit_all<S: Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        self.emit(event, payload)
    }
}
#[derive(Clone)]
pub struct AppHandle(Window);
impl Manager for AppHandle {
    fn app_handle(&self) -> AppHandle {
        self.clone()
    }
    fn emit_all<S: Serialize + Clone>(&self, event: &str, payload: S) -> Result<()> {
        self.0.emit(event, payload)
    }
}

pub type Reply = serde_json::Value;
pub fn reply<S: Serialize>(s: S) -> Reply {
    serde_json::to_value(s).unwrap()
}

type Answer = Pin<Box<dyn Future<Output = serde_json::Value>>>;
type Handler = fn(Window, String, String) -> Answer;

#[derive(Default)]
pub struct Handlers(Vec<(&'static str, Handler)>);
impl Handlers {
    pub fn add(&mut self, name: &'static str, f: Handler) {
        self.0.push((name, f));
    }
}

#[derive(Default)]
pub struct Builder(Handlers);
impl Builder {
    pub fn invoke_handler(self, h: Handlers) -> Builder {
        Builder(h)
    }
    pub fn run(self, _: Context) -> Result<()> {
        let a: Vec<String> = std::env::args().collect();
        let (_, f) = self.0 .0.iter().find(|(n, _)| *n == a[1]).ok_or(Error)?;
        let w = Window(Arc::default());
        let answer = futures::executor::block_on(f(w.clone(), a[2].clone(), a[3].clone()));
        for e in w.0.lock().unwrap().iter() {
            println!("{e}");
        }
        println!("{}", serde_json::json!({ "answer": answer }));
        Ok(())
    }
}

pub struct Context;
#[macro_export]
macro_rules! generate_context {
    () => {
        $crate::Context
    };
}
