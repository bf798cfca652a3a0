//! A markdown oracle: reads records of "<length>\n<bytes>" on stdin, answers each with "<length>\n<html bytes>".
use pulldown_cmark::{html, Options, Parser};
use std::io::{self, BufRead, Read, Write};

fn main() {
    let stdin = io::stdin();
    let mut input = stdin.lock();
    let mut out = io::stdout().lock();
    loop {
        let mut line = String::new();
        if input.read_line(&mut line).unwrap() == 0 {
            return;
        }
        let mut buf = vec![0; line.trim().parse().unwrap()];
        input.read_exact(&mut buf).unwrap();
        let md = String::from_utf8(buf).unwrap();
        let mut s = String::new();
        html::push_html(&mut s, Parser::new_ext(&md, Options::all()));
        write!(out, "{}\n{}", s.len(), s).unwrap();
        out.flush().unwrap();
    }
}
