"""What the library functions outside the workspace do, by definition path. A function matches at most one kind of
interest per table; the tables list the standard library's effectful API and that of the dependencies in use."""
import re

FS_MUT = re.compile(
    r"std::fs::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|soft_link|set_permissions|File::create|File::create_new|File::options|File::set_len|File::set_permissions|File::set_times|OpenOptions::open|OpenOptions::new|DirBuilder::\w+)$"
    r"|std::os::unix::fs::(symlink|chown|lchown|fchown|chroot)|std::os::windows::fs::symlink"
    r"|include_dir::(dir::)?Dir::extract|tempfile::|fs_extra::")
FS_READ = re.compile(
    r"std::fs::(read|read_to_string|read_dir|metadata|symlink_metadata|canonicalize|read_link|exists|File::open|ReadDir|DirEntry::\w+|try_exists)"
    r"|std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)$"
    r"|std::fs::ReadDir as |<std::fs::File as |std::env::(current_dir|current_exe|temp_dir)$")
PROC = re.compile(r"std::process::(Command|Child|exit|abort|id)|std::os::unix::process|libloading::.*Library::(new|open)|^libc::")
NET = re.compile(r"std::net::|humphrey::(app|client|stream)|humphrey_ws::(handler|async_app|stream|client)|^reqwest|^hyper|^ureq|tokio::net|std::os::unix::net")
ENV = re.compile(r"std::env::(var|var_os|vars|vars_os|set_var|remove_var|args|args_os|set_current_dir|home_dir)$")
CLOCK = re.compile(r"std::time::(Instant|SystemTime)::(now|elapsed)$|std::time::SystemTime::|chrono::.*::(now|today)$|chrono::offset::(local|utc)::\w+::(now|today)$")
RANDOM = re.compile(r"^(rand|fastrand|getrandom|uuid)::|std::hash::random::RandomState|std::collections::hash::map::RandomState")
THREAD = re.compile(r"std::thread::(spawn|Builder|scope|functions::|sleep)|^rayon::|^tokio::|std::sync::mpsc")
STDIO = re.compile(r"std::io::stdio::|std::io::(stdout|stderr|stdin|_print|_eprint)|termcolor::|^log::|std::io::_e?print")
EXIT = re.compile(r"std::process::(exit|abort)$")

KINDS = [("filesystem write", FS_MUT), ("filesystem read", FS_READ), ("process", PROC), ("network", NET), ("environment", ENV),
         ("clock", CLOCK), ("randomness", RANDOM), ("thread", THREAD), ("terminal", STDIO)]


def kind(path):
    for k, r in KINDS:
        if r.search(path):
            return k
    return None
