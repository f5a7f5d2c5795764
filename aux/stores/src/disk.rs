//! Power-loss images: every successful sync of a file below a watched directory copies that directory aside, so the
//! last copy is what a machine that loses power now would find.

use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub struct Watch {
    pub image: PathBuf,
    pub flip: u64,
    pub syncs: u64,
}

static WATCH: Mutex<Option<HashMap<PathBuf, Watch>>> = Mutex::new(None);

pub fn watch(dir: &Path, image: &Path) {
    let mut g = WATCH.lock().unwrap();
    g.get_or_insert_with(HashMap::new).insert(dir.to_path_buf(), Watch { image: image.to_path_buf(), flip: 0, syncs: 0 });
}

/// Stop watching; returns the newest image and the number of syncs seen.
pub fn unwatch(dir: &Path) -> Option<(PathBuf, u64)> {
    let mut g = WATCH.lock().unwrap();
    let w = g.as_mut()?.remove(dir)?;
    if w.flip == 0 {
        return None;
    }
    Some((PathBuf::from(format!("{}.{}", w.image.display(), w.flip)), w.syncs))
}

pub fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::create_dir_all(to);
    let Ok(rd) = std::fs::read_dir(from) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let t = to.join(e.file_name());
        if p.is_dir() {
            copy_dir(&p, &t);
        } else {
            // sparse copy: these files are mostly preallocated zeros
            let _ = std::fs::copy(&p, &t);
        }
    }
}

fn synced(fd: i32) {
    let g = WATCH.lock();
    let Ok(mut g) = g else { return };
    let Some(m) = g.as_mut() else { return };
    if m.is_empty() {
        return;
    }
    let Ok(p) = std::fs::read_link(format!("/proc/self/fd/{}", fd)) else { return };
    let Some(dir) = m.keys().find(|k| p.starts_with(k)).cloned() else { return };
    let w = m.get_mut(&dir).unwrap();
    w.syncs += 1;
    let old = format!("{}.{}", w.image.display(), w.flip);
    w.flip += 1;
    let new = format!("{}.{}", w.image.display(), w.flip);
    copy_dir(&dir, Path::new(&new));
    let _ = std::fs::remove_dir_all(old);
}

/// # Safety
/// Same contract as the libc function of that name.
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    let r = libc::syscall(libc::SYS_fsync, fd) as i32;
    if r == 0 {
        synced(fd);
    }
    r
}
/// # Safety
/// Same contract as the libc function of that name.
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    let r = libc::syscall(libc::SYS_fdatasync, fd) as i32;
    if r == 0 {
        synced(fd);
    }
    r
}
/// # Safety
/// Same contract as the libc function of that name.
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: i32, off: i64, n: i64, flags: u32) -> i32 {
    let r = libc::syscall(libc::SYS_sync_file_range, fd, off, n, flags) as i32;
    if r == 0 {
        synced(fd);
    }
    r
}
