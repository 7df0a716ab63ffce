pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        // the program's own refusals are panics that are caught; only this program's checks speak
        if i.location().is_some_and(|l| l.file() == "src/main.rs") {
            eprintln!("{i}");
        }
    }));
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
