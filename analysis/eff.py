"""Effects of external calls, by resolved callee path."""
from db import strip_generics, fn_values

NET = ("std::net::", "std::os::unix::net::")
FSW = ("std::fs::write", "std::fs::create_dir", "std::fs::create_dir_all", "std::fs::remove_file", "std::fs::remove_dir",
       "std::fs::remove_dir_all", "std::fs::rename", "std::fs::copy", "std::fs::hard_link", "std::fs::soft_link",
       "std::fs::set_permissions", "std::fs::File::create", "std::fs::File::create_new", "std::fs::File::create_buffered", "std::fs::File::set_len",
       "std::fs::File::set_permissions", "std::fs::File::options", "std::fs::OpenOptions::open", "std::fs::OpenOptions::new", "std::fs::DirBuilder::create",
       "std::fs::DirBuilder::new", "std::os::unix::fs::symlink", "tempfile::", "std::fs::set_times", "std::fs::File::set_times", "std::fs::File::set_modified")
FSR = ("std::fs::read", "std::fs::read_to_string", "std::fs::read_dir", "std::fs::read_link", "std::fs::metadata", "std::fs::symlink_metadata",
       "std::fs::canonicalize", "std::fs::exists", "std::fs::File::open", "std::fs::File::open_buffered", "std::path::Path::exists", "std::path::Path::is_file",
       "std::path::Path::is_dir", "std::path::Path::metadata", "std::path::Path::canonicalize", "std::path::Path::read_dir", "std::path::Path::read_link",
       "std::path::Path::try_exists", "std::path::Path::symlink_metadata", "std::path::Path::is_symlink")
PROC = ("std::process::Command::", "std::process::Child::", "libc::fork", "libc::unix::fork", "libc::exec", "libc::posix_spawn", "libc::system", "libc::popen", "libc::vfork")
STDIN = ("std::io::stdin", "std::io::Stdin", "std::io::read_to_string")
STDOUT = ("std::io::_print", "std::io::stdio::_print", "std::io::stdout", "std::io::stdio::stdout", "std::io::stdio::print_to", "std::io::Stdout")
STDERR = ("std::io::_eprint", "std::io::stdio::_eprint", "std::io::stderr", "std::io::stdio::stderr")
ENVW = ("std::env::set_var", "std::env::remove_var", "std::env::set_current_dir", "libc::setenv", "libc::unsetenv", "libc::putenv", "libc::chdir")
ENVR = ("std::env::var", "std::env::var_os", "std::env::vars", "std::env::vars_os", "std::env::current_dir", "std::env::args", "std::env::args_os",
        "std::env::current_exe", "std::env::home_dir", "std::env::temp_dir", "dirs::")
TIME = ("std::time::SystemTime::now", "std::time::Instant::now", "chrono::Local::now", "chrono::Utc::now", "chrono::offset::Local::now", "chrono::offset::Utc::now",
        "std::time::SystemTime::elapsed", "std::time::Instant::elapsed")
RAND = ("rand::", "getrandom::", "fastrand::", "uuid::Uuid::new_v4", "uuid::Uuid::now_v7", "std::hash::RandomState::new", "std::collections::hash_map::RandomState")
SLEEP = ("std::thread::sleep", "std::thread::park", "libc::sleep", "libc::usleep", "libc::nanosleep")
THREAD = ("std::thread::spawn", "std::thread::Builder", "std::thread::scope", "rayon::")
EXIT = ("std::process::exit", "std::process::abort", "libc::exit", "libc::_exit", "libc::abort")
KILL = ("libc::kill", "libc::raise", "libc::waitpid", "libc::wait")

TABLE = [("network", NET), ("process", PROC), ("file-write", FSW), ("file-read", FSR), ("stdin", STDIN), ("stdout", STDOUT), ("stderr", STDERR),
         ("env-write", ENVW), ("env-read", ENVR), ("time", TIME), ("random", RAND), ("sleep", SLEEP), ("thread", THREAD), ("exit", EXIT), ("signal", KILL)]
_EXACTISH = {}


def _match(p, pat):
    if pat.endswith("::"):
        return p.startswith(pat)
    return p == pat or p.startswith(pat + "::") or (pat in ("libc::exec", "libc::posix_spawn") and p.startswith(pat))


def canon(p):
    p = strip_generics(p)
    # libc re-exports through platform modules
    if p.startswith("libc::"):
        p = "libc::" + p.split("::")[-1]
    return p


_cache = {}


def kind(path):
    """effect kind of an external function, or None"""
    if path is None:
        return None
    r = _cache.get(path, 0)
    if r == 0:
        p = canon(path)
        r = None
        for k, pats in TABLE:
            if any(_match(p, x) for x in pats):
                r = k
                break
        _cache[path] = r
    return r


def sites(db, f):
    """(kind, callee path, line) of every external effect f itself performs"""
    out = []
    for c in f.calls():
        if c.rpath in db.fns:
            continue
        k = kind(c.rpath) or kind(c.path)
        if k:
            out.append((k, canon(c.rpath or c.path), c.line))
    for p in fn_values(f):
        k = kind(p)
        if k and p not in db.fns:
            out.append((k, canon(p), f.line))
    return out
