//! What goes wrong, and which operations have been performed.
use crate::disk;
use crate::value::*;
use std::cell::RefCell;

#[derive(Default)]
pub struct World {
    /// operations performed so far
    pub count: u64,
    /// the operation to reject, and whether all later ones are rejected too
    pub fail: Option<(u64, bool)>,
    /// before this operation, a file is changed by someone else
    pub change: Option<(u64, String, u64)>,
    /// bytes that may be written
    pub quota: Option<u64>,
    pub failed: Vec<String>,
    /// the picker that is shown
    pub picker: Option<(&'static str, Option<String>, JsValue)>,
    pub pickers: Vec<(&'static str, Option<String>)>,
}
thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
}
pub fn before(name: &str) -> Option<JsValue> {
    let (n, change) = WORLD.with_borrow_mut(|w| {
        let n = w.count;
        w.count += 1;
        (n, w.change.take_if(|c| c.0 == n))
    });
    if let Some((_, path, len)) = change {
        disk::truncate(&path, len);
    }
    WORLD.with_borrow_mut(|w| match w.fail {
        Some((k, sticky)) if k == n || (sticky && k < n) => {
            w.failed.push(name.to_string());
            Some(err("NotAllowedError", &format!("injected failure of {name}")))
        }
        _ => None,
    })
}
pub fn spend(n: u64) -> Result<(), JsValue> {
    WORLD.with_borrow_mut(|w| match &mut w.quota {
        None => Ok(()),
        Some(q) if *q >= n => {
            *q -= n;
            Ok(())
        }
        Some(_) => {
            w.failed.push("quota".into());
            Err(err("QuotaExceededError", "quota exceeded"))
        }
    })
}

/// A call of a function imported from the application's own scripts.
pub fn import(module: &str, name: &str, args: &[JsValue]) -> JsValue {
    let ask = |kind, suggested: Option<String>| {
        let cb = args[0].clone();
        WORLD.with_borrow_mut(|w| {
            assert!(w.picker.is_none(), "uncaught exception: a picker is already shown");
            w.picker = Some((kind, suggested.clone(), cb));
            w.pickers.push((kind, suggested));
        });
        JsValue::UNDEFINED
    };
    match (module, name) {
        (_, "isFilePickerAvailable") => JsValue::TRUE,
        (_, "showOpenFilePicker") => ask("file", None),
        (_, "showDirectoryPicker") => ask("directory", None),
        (_, "showSaveFilePicker") => ask("save", args.get(1).and_then(|a| a.as_string())),
        ("/src/ops/tauri.js", "pack_image" | "unpack_image" | "compress_image") => {
            let (name, args) = (name.to_string(), args.to_vec());
            start(name.clone(), move || crate::disk::command(&name, &args))
        }
        (_, "open_url") => JsValue::UNDEFINED,
        _ => panic!("uncaught TypeError: {module} has no function {name}"),
    }
}
