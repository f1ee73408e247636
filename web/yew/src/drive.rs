//! The user: a script of clicks and choices, from standard input. The screens go to standard output.
use crate::{deliver, dirty, render, Html, Item, MouseEvent};
use rt::world::WORLD;
use serde_json::{json, Value};
use std::io::{Read, Write};

struct User {
    app: Html,
    screen: Vec<Item>,
    shown: Value,
    /// how much of the first screen never changes
    fixed: Vec<Value>,
    done: bool,
    dumps: u32,
    dump: String,
}
fn show(l: &[Item]) -> Value {
    l.iter()
        .map(|i| match i {
            Item::Text(t) => json!(t),
            Item::Button(l, d, _) => json!({"button": l, "disabled": d}),
            Item::Callout(k, v) => json!({"callout": k, "items": show(v)}),
            Item::Progress(n) => json!({"progress": n}),
        })
        .collect()
}
fn say(v: Value) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{v}");
}
fn find<'a>(l: &'a [Item], label: &str) -> Option<&'a Item> {
    l.iter().find_map(|i| match i {
        Item::Button(n, ..) if n == label => Some(i),
        Item::Callout(_, v) => find(v, label),
        _ => None,
    })
}
/// The notice about the work, which has a bar, and whether it tells of success.
fn done(l: &[Item]) -> bool {
    l.iter().any(|i| match i {
        Item::Callout(k, v) => k.as_deref() == Some("Success") && v.iter().any(|i| matches!(i, Item::Progress(_))) || done(v),
        _ => false,
    })
}
impl User {
    /// Everything that happens before the next operation of the host completes.
    fn settle(&mut self) {
        loop {
            let mut again = rt::poll_tasks();
            while deliver() {
                again = true;
                self.draw();
            }
            self.draw();
            if !again {
                break;
            }
        }
    }
    fn draw(&mut self) {
        if !dirty() {
            return;
        }
        self.screen = render(&self.app);
        let s = show(&self.screen);
        if s == self.shown {
            return;
        }
        let l = s.as_array().unwrap();
        if self.shown.is_null() {
            let n = l.iter().position(|i| i["button"] == "Pack").unwrap_or(0);
            self.fixed = l[..n].to_vec();
        }
        let n = l.iter().zip(&self.fixed).take_while(|(a, b)| a == b).count();
        say(json!({"screen": l[n..]}));
        self.shown = s;
        let d = done(&self.screen);
        if d && !self.done {
            // what the user finds the moment that success is shown
            rt::disk::dump(format!("{}/{}", self.dump, self.dumps).as_ref());
            say(json!({"dump": self.dumps, "pending": rt::pending_ops()}));
            self.dumps += 1;
        }
        self.done = d;
    }
    fn step(&mut self, s: &Value) -> Result<(), Value> {
        if let Some(label) = s["click"].as_str() {
            match find(&self.screen, label) {
                Some(Item::Button(_, false, cb)) => {
                    let cb = cb.clone();
                    cb.emit(MouseEvent);
                }
                Some(_) => return Err(json!({"disabled": label})),
                None => return Err(json!({"missing": label})),
            }
        } else if let Some(path) = s["pick"].as_str() {
            let p = WORLD.with_borrow_mut(|w| w.picker.take());
            let Some((kind, suggested, cb)) = p else { return Err(json!({"nopicker": path})) };
            say(json!({"picker": kind, "suggested": suggested}));
            let v = if s["name"].as_bool() == Some(true) { path.into() } else { rt::disk::pick(kind, path) };
            cb.invoke(v);
        } else if s["cancel"].as_bool() == Some(true) {
            WORLD.with_borrow_mut(|w| w.picker.take());
        } else if let Some(n) = s["ops"].as_u64() {
            for _ in 0..n {
                self.settle();
                if !rt::step() {
                    break;
                }
            }
        } else if s["wait"].as_bool() == Some(true) {
            loop {
                self.settle();
                if !rt::step() {
                    break;
                }
                if WORLD.with_borrow(|w| w.count) > 3_000_000 {
                    return Err(json!({"endless": true}));
                }
            }
        } else {
            panic!("harness: step {s}");
        }
        self.settle();
        Ok(())
    }
}

pub fn drive(app: Html) {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("harness: script");
    let c: Value = serde_json::from_str(&text).expect("harness: script");
    rt::disk::load(c["disk"].as_str().unwrap().as_ref(), c["order"].as_u64().unwrap_or(0));
    WORLD.with_borrow_mut(|w| {
        w.fail = c["fail"]["at"].as_u64().map(|k| (k, c["fail"]["sticky"].as_bool().unwrap_or(false)));
        w.change = c["change"]["at"].as_u64().map(|k| (k, c["change"]["path"].as_str().unwrap().to_string(), c["change"]["len"].as_u64().unwrap()));
        w.quota = c["quota"].as_u64();
    });
    let dump = c["dump"].as_str().unwrap().to_string();
    let mut u = User { app, screen: vec![], shown: Value::Null, fixed: vec![], done: false, dumps: 0, dump };
    u.settle();
    let mut stop = Value::Null;
    for s in c["steps"].as_array().unwrap() {
        if let Err(e) = u.step(s) {
            stop = e;
            break;
        }
    }
    rt::disk::dump(format!("{}/end", u.dump).as_ref());
    let (ops, failed) = WORLD.with_borrow(|w| (w.count, w.failed.clone()));
    say(json!({"end": {"ops": ops, "failed": failed, "stop": stop, "tasks": rt::pending_tasks(), "pending": rt::pending_ops()}}));
}
