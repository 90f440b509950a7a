//! A simulated user of the pages, and what is seen, on standard output, one line each. A step is
//! `PAGE:BUTTON:FILE:DIR:SAVE` (the user presses a button and answers the dialog it opens with the one of the
//! three that it asks for), `PAGE:BUTTON` (the user cancels the dialog), `events:N` (the user waits a while) or
//! `idle` (the user waits until nothing happens any more).
use jsworld::{world, JsValue};
use std::cell::RefCell;
use std::rc::Rc;

use crate::ops::XDVDFSOperations;
use crate::picker::{FilePickerBackend, PickerResult};
use xdvdfs::write::img::ProgressInfo;

fn say(v: serde_json::Value) {
    println!("{}", v);
}

/// What a handle of the backend stands for.
pub trait Paths: FilePickerBackend {
    fn file(h: &Self::FileHandle) -> String;
    fn dir(h: &Self::DirectoryHandle) -> String;
}
/// The real operations, and a record of their use.
pub struct Spy<XO>(std::marker::PhantomData<XO>);
impl<XO> Clone for Spy<XO> {
    fn clone(&self) -> Self {
        Self::default()
    }
}
impl<XO> Default for Spy<XO> {
    fn default() -> Self {
        Spy(std::marker::PhantomData)
    }
}
fn source<F: Paths>(v: &PickerResult<F>) -> String {
    match v {
        PickerResult::FileHandle(f) => F::file(f),
        PickerResult::DirectoryHandle(d) => F::dir(d),
    }
}
fn watch<T: serde::Serialize + 'static>(page: &'static str, cb: yew::Callback<T>) -> yew::Callback<T> {
    yew::Callback::from(move |v: T| {
        say(serde_json::json!({"progress": page, "info": v}));
        cb.emit(v)
    })
}
fn called(page: &str, src: String, dst: String) {
    say(serde_json::json!({"call": page, "source": src, "output": dst}));
}
fn ended(page: &str, r: Result<(), String>) -> Result<(), String> {
    say(serde_json::json!({"end": page, "error": r.as_ref().err()}));
    r
}
#[async_trait::async_trait(?Send)]
impl<F: Paths + 'static, XO: XDVDFSOperations<F>> XDVDFSOperations<F> for Spy<XO> {
    async fn pack_image(
        src: PickerResult<F>,
        dest: F::FileHandle,
        progress: yew::Callback<ProgressInfo>,
        state: &yew::Callback<crate::packing::WorkflowState>,
    ) -> Result<(), String> {
        called("p", source(&src), F::file(&dest));
        ended("p", XO::pack_image(src, dest, watch("p", progress), state).await)
    }
    async fn unpack_image(
        src: F::FileHandle,
        dest: F::DirectoryHandle,
        progress: yew::Callback<ProgressInfo>,
        state: &yew::Callback<crate::unpacking::WorkflowState>,
    ) -> Result<(), String> {
        called("u", F::file(&src), F::dir(&dest));
        ended("u", XO::unpack_image(src, dest, watch("u", progress), state).await)
    }
    async fn compress_image(
        src: PickerResult<F>,
        dest: F::DirectoryHandle,
        progress: yew::Callback<ProgressInfo, ()>,
        compression: yew::Callback<crate::compress::CisoProgressInfo>,
        state: &yew::Callback<crate::compress::WorkflowState, ()>,
    ) -> Result<(), String> {
        called("c", source(&src), F::dir(&dest));
        ended("c", XO::compress_image(src, dest, watch("c", progress), watch("c", compression), state).await)
    }
}

struct Dialog {
    kind: usize,
    suggested: Option<String>,
    callback: JsValue,
}
/// How a dialog of a kind (0: file, 1: directory, 2: file to save) is answered with a path.
pub type Answer = fn(usize, &str) -> JsValue;
thread_local!(static DIALOG: RefCell<Option<Dialog>> = const { RefCell::new(None) });

struct Tab {
    name: &'static str,
    page: yew::Page,
    shown: RefCell<String>,
}
struct Desk {
    tabs: Vec<Tab>,
    answer: Answer,
    /// what becomes of the app when it waits for something that never happens
    stuck: fn(),
}
impl Desk {
    /// Lets the page and the tasks run until they all wait.
    fn run(&self) {
        loop {
            let before = world::tasks();
            yew::settle();
            world::poll_tasks();
            let more = yew::settle();
            self.look();
            if !more && world::tasks() == before {
                return;
            }
        }
    }
    fn look(&self) {
        for t in &self.tabs {
            let v = serde_json::json!({"view": t.name, "shows": view(&t.page)});
            let s = v.to_string();
            if *t.shown.borrow() != s {
                println!("{}", s);
                *t.shown.borrow_mut() = s;
            }
        }
    }
    fn event(&self) -> bool {
        let e = world::event();
        self.run();
        e
    }
    fn idle(&self) {
        self.run();
        while self.event() {}
        if world::tasks() != 0 {
            eprintln!("a task waits for something that never happens");
            (self.stuck)()
        }
    }
    fn press(&self, name: &str, n: usize, answer: Option<&[&str]>) {
        let t = self.tabs.iter().find(|t| t.name == name).expect("no such page");
        let b = buttons(&t.page).into_iter().nth(n);
        let state = match &b {
            None => "absent",
            Some((true, _)) => "disabled",
            Some(_) => "pressed",
        };
        say(serde_json::json!({"press": name, "button": n, "state": state}));
        let Some((false, cb)) = b else { return };
        cb.emit(yew::MouseEvent);
        self.run();
        let Some(d) = DIALOG.with(|d| d.borrow_mut().take()) else { return };
        let picked = answer.map(|a| a[d.kind].to_string());
        let kind = ["file", "dir", "save"][d.kind];
        // the dialog is modal: the user does nothing else until it is closed
        let done = Rc::new(RefCell::new(false));
        let d2 = done.clone();
        let page = name.to_string();
        let answer = self.answer;
        world::later(move || {
            *d2.borrow_mut() = true;
            say(serde_json::json!({"dialog": page, "button": n, "kind": kind, "suggested": d.suggested, "picked": picked}));
            let Some(p) = picked else { return };
            d.callback.call(answer(d.kind, &p));
        });
        while !*done.borrow() {
            self.event();
        }
    }
}
fn buttons(p: &yew::Page) -> Vec<(bool, yew::Callback<yew::MouseEvent>)> {
    let mut v = vec![];
    p.visit(&mut |s, start| {
        if let (yew::Shown::Elem("button", k), true) = (s, start) {
            v.push((k.disabled, k.onclick.clone()));
        }
    });
    v
}
/// The callouts: intent, texts, buttons (disabled or not) and progress bar in each.
fn view(p: &yew::Page) -> serde_json::Value {
    let mut l: Vec<(String, Vec<String>, Vec<bool>, Option<f64>)> = vec![Default::default()];
    let mut in_button = false;
    p.visit(&mut |s, start| match s {
        yew::Shown::Text(t) if !in_button => l.last_mut().unwrap().1.push(t.into()),
        yew::Shown::Text(_) => {}
        yew::Shown::Elem("callout", k) if start => l.push((k.intent.clone(), vec![], vec![], None)),
        yew::Shown::Elem("callout", _) => {}
        yew::Shown::Elem("button", k) => {
            in_button = start;
            if start {
                l.last_mut().unwrap().2.push(k.disabled)
            }
        }
        yew::Shown::Elem("bar", k) => l.last_mut().unwrap().3 = Some(k.value),
        yew::Shown::Elem(..) => {}
    });
    serde_json::to_value(l).unwrap()
}

/// A function that opens a dialog: the answer comes when the user gives it.
pub fn global(name: &str, mut a: Vec<JsValue>) -> JsValue {
    let kind = match name {
        "isFilePickerAvailable" => return true.into(),
        "showOpenFilePicker" => 0,
        "showDirectoryPicker" => 1,
        "showSaveFilePicker" => 2,
        n => panic!("no function {}", n),
    };
    let suggested = a.get(1).and_then(|s| s.as_string());
    let d = Dialog { kind, suggested, callback: a.swap_remove(0) };
    // a second dialog is not opened
    DIALOG.with(|x| {
        x.borrow_mut().get_or_insert(d);
    });
    JsValue::Undefined
}

pub fn visit<F: Paths + 'static, XO: XDVDFSOperations<F> + 'static>(steps: impl Iterator<Item = String>, answer: Answer, stuck: fn()) {
    yew::set_spawn(|f| world::spawn_local(f));
    let desk = Desk {
        tabs: vec![
            Tab { name: "p", page: yew::Page::open::<crate::packing::ImageBuilderWorkflow<F, Spy<XO>>>(()), shown: Default::default() },
            Tab { name: "u", page: yew::Page::open::<crate::unpacking::ImageUnpackingWorkflow<F, Spy<XO>>>(()), shown: Default::default() },
            Tab { name: "c", page: yew::Page::open::<crate::compress::ImageBuilderWorkflow<F, Spy<XO>>>(()), shown: Default::default() },
        ],
        answer,
        stuck,
    };
    desk.run();
    for step in steps {
        let f: Vec<&str> = step.split(':').collect();
        match f[0] {
            "idle" => desk.idle(),
            "events" => {
                for _ in 0..f[1].parse().unwrap() {
                    desk.event();
                }
            }
            page => desk.press(page, f[1].parse().unwrap(), (f.len() == 5).then(|| &f[2..])),
        }
    }
    desk.idle();
}
