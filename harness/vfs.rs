// In-memory files behind the C library's open/read/write/close, with symbolic short transfers.
// Interposed in the symbolic run and in the native build alike; descriptors below 500 go to the system.
mod vfs {
    pub static mut DATA: Option<Vec<Vec<u8>>> = None;   // content of file i (descriptor 500+i)
    pub static mut NAME: Option<Vec<Vec<u8>>> = None;
    pub static mut POS: [usize; 8] = [0; 8];
    pub static mut TRUNC: [bool; 8] = [false; 8];
    pub static mut STDIN: i32 = -1;                      // file index served as descriptor 0, or -1
    pub static mut STDOUT: i32 = -1;                     // file index receiving descriptor 1, or -1
    pub static mut SHORT: bool = false;                  // transfers may be short
    pub static mut CAP: usize = 0;                       // largest transfer, 0: unlimited
    pub static mut FAIL_AT: i64 = -1;                    // transfer number that fails with EIO
    pub static mut INTR_AT: i64 = -1;                    // transfer number that fails with EINTR
    pub static mut COUNT: i64 = 0;
    pub static mut READ_FAILED: bool = false;            // a read was the transfer that failed
    pub static mut DELIVERED: usize = 0;                 // bytes read so far
    extern "C" { fn syscall(n: i64, a: usize, b: usize, c: usize) -> isize; fn __errno_location() -> *mut i32; }
    fn file(fd: i32) -> i32 { unsafe { if fd >= 500 { fd - 500 } else if fd == 0 { STDIN } else if fd == 1 { STDOUT } else { -1 } } }
    fn count(n: usize) -> isize { unsafe {
        let k = COUNT; COUNT += 1;
        if k == FAIL_AT { *__errno_location() = 5; return -1; }
        if k == INTR_AT { *__errno_location() = 4; return -1; }
        if n == 0 { return 0; }
        let n = if CAP > 0 && n > CAP { CAP } else { n };
        if SHORT { super::split(super::any_in("transfer", 1, n as u64 + 1)) as isize } else { n as isize }
    } }
    #[allow(static_mut_refs)]
    fn data(i: usize) -> &'static mut Vec<u8> { unsafe { if DATA.is_none() { DATA = Some(vec![]); NAME = Some(vec![]); } &mut DATA.as_mut().unwrap()[i] } }
    #[allow(static_mut_refs)] #[allow(dead_code)]
    pub fn add(name: &[u8], content: Vec<u8>) -> usize { unsafe { if DATA.is_none() { DATA = Some(vec![]); NAME = Some(vec![]); } DATA.as_mut().unwrap().push(content); NAME.as_mut().unwrap().push(name.to_vec()); DATA.as_ref().unwrap().len() - 1 } }
    #[allow(static_mut_refs)] #[allow(dead_code)]
    pub fn find(name: &[u8]) -> i32 { unsafe { if NAME.is_none() { return -1; } for i in 0..NAME.as_ref().unwrap().len() { if NAME.as_ref().unwrap()[i] == name { return i as i32; } } -1 } }
    #[allow(dead_code)] pub fn content(i: usize) -> Vec<u8> { data(i).clone() }
    #[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: i32) -> i32 {
        let mut n = 0; while *path.offset(n) != 0 { n += 1; }
        let p = ::std::slice::from_raw_parts(path, n as usize);
        if n >= 4 && p[0] == b'v' && p[1] == b'f' && p[2] == b's' && p[3] == b':' {
            let mut i = find(p); if n >= 8 && p[4] == b'd' && p[5] == b'e' && p[6] == b'n' && p[7] == b'y' { *__errno_location() = 13; return -1; }
            if i < 0 { if flags & 0o100 == 0 { *__errno_location() = 2; return -1; } i = add(p, vec![]) as i32; }
            if flags & 0o1000 != 0 { data(i as usize).clear(); TRUNC[i as usize] = true; }
            POS[i as usize] = 0; return 500 + i;
        }
        syscall(2, path as usize, flags as usize, mode as usize) as i32
    }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let f = file(fd); if f < 0 { return syscall(0, fd as usize, buf as usize, n); } let f = f as usize;
        let d = data(f); let left = d.len() - POS[f]; let want = if n < left { n } else { left };
        let k = count(want); if k < 0 && *__errno_location() == 5 { READ_FAILED = true; } if k > 0 { DELIVERED += k as usize; for i in 0..k as usize { *buf.offset(i as isize) = d[POS[f] + i]; } POS[f] += k as usize; } k
    }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
        let f = file(fd); if f < 0 { return syscall(1, fd as usize, buf as usize, n); } let f = f as usize;
        let k = count(n); if k > 0 { let d = data(f); for i in 0..k as usize { if POS[f] < d.len() { d[POS[f]] = *buf.offset(i as isize); } else { d.push(*buf.offset(i as isize)); } POS[f] += 1; } } k
    }
    #[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 { if fd >= 500 { return 0; } syscall(72, fd as usize, cmd as usize, arg) as i32 }
    #[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if fd >= 500 { return 0; } syscall(3, fd as usize, 0, 0) as i32 }
}
