mod alloc;
mod buf;
mod choice;
mod ctx;
mod model;
mod net;
mod run;
mod worlds;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// Randomness is behind a seam too: the hash keys of every std collection in the process, the library's
/// included, come from here, so that no run depends on the operating system's random numbers.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

/// The library's lazily built tables are built here, in every process at the same point.
pub fn warm_up() {
    let r = std::panic::catch_unwind(|| {
        let mut e = webparse::http2::encoder::Encoder::new();
        let mut b = algorithm::buf::BinaryMut::new();
        let n = webparse::HeaderName::from_static("accept");
        let v = webparse::HeaderValue::from_static("x");
        let _ = e.encode_header_into((&n, &v), &mut b);
        let _ = webparse::http2::Decoder::new().decode(&mut algorithm::buf::BinaryMut::from(vec![0x82u8, 0x40, 0x81, 0x1f, 0x81, 0x1f]));
    });
    drop(r);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = run::main(&args[1..]);
    std::process::exit(code);
}
