//! Placement of the bytes under test in memory: against inaccessible pages or inside chosen surroundings.
use std::ffi::c_void;
extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut c_void, len: usize) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn write(fd: i32, buf: *const c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    pub fn alarm(seconds: u32) -> u32;
}
const PAGE: usize = 4096;
pub const ROOM: usize = 8 << 20;
pub struct Arena(*mut u8);
#[derive(Copy, Clone, Debug)]
pub enum Place {
    /// last byte directly before an inaccessible page
    Right,
    /// first byte directly after an inaccessible page
    Left,
    /// in the middle of memory filled with this byte, at an odd distance
    Fill(u8, usize),
    /// followed (and preceded) by copies of itself
    Echo,
}
impl Arena {
    pub fn new() -> Arena {
        unsafe {
            let p = mmap(std::ptr::null_mut(), ROOM + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p, PAGE, 0) == 0);
            assert!(mprotect((p as usize + PAGE + ROOM) as *mut c_void, PAGE, 0) == 0);
            Arena(p as *mut u8)
        }
    }
    pub fn place(&mut self, bytes: &[u8], how: Place) -> &[u8] {
        let n = bytes.len();
        assert!(n * 3 + 8192 < ROOM);
        let all = unsafe { std::slice::from_raw_parts_mut(self.0.add(PAGE), ROOM) };
        let at = match how {
            Place::Right => ROOM - n,
            Place::Left => 0,
            Place::Fill(b, shift) => {
                let at = 2048 + shift;
                all[at - 1024..at].fill(b);
                all[at + n..at + n + 1024].fill(b);
                at
            }
            Place::Echo => {
                let at = n + 64;
                all[at - n..at].copy_from_slice(bytes);
                all[at + n..at + n + n].copy_from_slice(bytes);
                at
            }
        };
        all[at..at + n].copy_from_slice(bytes);
        &all[at..at + n]
    }
}

/// Buffers of gigabytes: the same few pages everywhere, with some bytes written over them.
pub struct Giant(*mut u8, usize, usize);
impl Giant {
    const PIECE: usize = 16 << 20;
    pub fn new(size: usize, fill: u8) -> Giant {
        let room = (size + Self::PIECE - 1) / Self::PIECE * Self::PIECE;
        unsafe {
            let fd = memfd_create(b"giant\0".as_ptr(), 0);
            assert!(fd >= 0);
            let piece = vec![fill; Self::PIECE];
            let mut done = 0;
            while done < Self::PIECE {
                let n = write(fd, piece.as_ptr().add(done) as *const c_void, Self::PIECE - done);
                assert!(n > 0);
                done += n as usize;
            }
            // reserved without memory, one inaccessible page behind the end
            let p = mmap(std::ptr::null_mut(), room + PAGE, 0, 0x4022, -1, 0);
            assert!(p as isize != -1);
            for i in 0..room / Self::PIECE {
                let at = (p as usize + i * Self::PIECE) as *mut c_void;
                assert!(mmap(at, Self::PIECE, 3, 0x4012, fd, 0) == at);
            }
            close(fd);
            Giant(p as *mut u8, size, room)
        }
    }
    pub fn bytes(&mut self) -> &mut [u8] {
        // the last byte is directly before the inaccessible page
        unsafe { std::slice::from_raw_parts_mut(self.0.add(self.2 - self.1), self.1) }
    }
}
impl Drop for Giant {
    fn drop(&mut self) {
        unsafe { munmap(self.0 as *mut c_void, self.2 + PAGE) };
    }
}
