"""Effect primitives (resolved paths) and their transitive closure over the call graph."""
from mir import short

# (prefix of the generic-free resolved path, effect)
PRIMS = [
    ("std::fs::write", "fs-write"), ("std::fs::File::create", "fs-write"), ("std::fs::File::create_new", "fs-write"),
    ("std::fs::File::options", "fs-write"), ("std::fs::OpenOptions", "fs-write"), ("std::fs::copy", "fs-write"),
    ("std::fs::rename", "fs-write"), ("std::fs::remove", "fs-write"), ("std::fs::create_dir", "fs-write"),
    ("std::fs::hard_link", "fs-write"), ("std::fs::soft_link", "fs-write"), ("std::fs::set_permissions", "fs-write"),
    ("std::fs::DirBuilder", "fs-write"), ("std::os::unix::fs::symlink", "fs-write"),
    ("std::fs::File::set_len", "fs-write"),
    ("std::fs::read", "fs-read"), ("std::fs::File::open", "fs-read"), ("std::fs::read_to_string", "fs-read"),
    ("std::fs::canonicalize", "fs-read"), ("std::fs::metadata", "fs-read"), ("std::fs::exists", "fs-read"),
    ("std::path::Path::canonicalize", "fs-read"), ("std::path::Path::exists", "fs-read"),
    ("std::path::Path::try_exists", "fs-read"),
    ("std::path::Path::is_file", "fs-read"), ("std::path::Path::is_dir", "fs-read"),
    ("std::path::Path::metadata", "fs-read"), ("std::path::Path::read_dir", "fs-read"),
    ("std::path::Path::read_link", "fs-read"), ("std::fs::read_dir", "fs-read"),
    ("std::env::current_dir", "env-read"), ("std::env::var", "env-read"), ("std::env::vars", "env-read"),
    ("std::env::var_os", "env-read"), ("std::env::vars_os", "env-read"), ("std::env::args_os", "env-read"),
    ("std::env::args", "env-read"), ("std::env::home_dir", "env-read"), ("std::env::temp_dir", "env-read"),
    ("std::env::current_exe", "env-read"),
    ("std::env::set_var", "env-write"), ("std::env::remove_var", "env-write"),
    ("std::env::set_current_dir", "env-write"),
    ("std::process::exit", "exit"), ("std::process::abort", "exit"), ("std::intrinsics::abort", "exit"),
    ("std::process::Command", "spawn"), ("std::thread::spawn", "thread"), ("std::thread::Builder", "thread"),
    ("std::thread::scope", "thread"), ("std::thread::sleep", "time"),
    ("std::net::", "net"), ("std::os::unix::net", "net"),
    ("std::io::_print", "stdout"), ("std::io::stdio::_print", "stdout"), ("std::io::stdout", "stdout"),
    ("std::io::stdio::stdout", "stdout"),
    ("std::io::_eprint", "stderr"), ("std::io::stdio::_eprint", "stderr"), ("std::io::stderr", "stderr"),
    ("std::io::stdio::stderr", "stderr"),
    ("std::io::stdin", "stdin"), ("std::io::stdio::stdin", "stdin"),
    ("std::time::SystemTime::now", "time"), ("std::time::Instant::now", "time"), ("chrono::", "time"),
    ("time::OffsetDateTime::now", "time"), ("rand::", "random"), ("getrandom::", "random"), ("uuid::", "random"),
    ("fastrand::", "random"),
    ("tera::Tera::new", "fs-read"), ("tera::Tera::parse", "fs-read"), ("tera::Tera::add_template_file", "fs-read"),
    ("tera::Tera::add_template_files", "fs-read"), ("tera::Tera::full_reload", "fs-read"),
    ("std::panic::set_hook", "env-write"), ("std::panic::catch_unwind", "catch"),
]


def prim(path):
    s = short(path)
    for p, e in PRIMS:
        if s == p or s.startswith(p if p.endswith("::") else p + "::"):
            return e
        if p in ("std::fs::remove", "std::fs::create_dir") and s.startswith(p):
            return e
    return None


def direct(prog):
    """fn path -> list of (effect, primitive, block, term/stmt)"""
    out = {}
    for p, outs in prog.callgraph().items():
        for c, info, bi, o in outs:
            e = prim(c)
            if e:
                out.setdefault(p, []).append((e, short(c), bi, o))
    return out


def closure_effects(prog, path):
    par = prog.reach_from([path])
    return sorted({prim(c) for c in par if prim(c)})
