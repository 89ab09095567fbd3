//! A solver that answers with prepared numbers (C17, C20).

use bugi::matrix::solve::{Solver, System};
use std::cell::RefCell;

thread_local! {
    static CANNED: RefCell<Vec<f64>> = RefCell::new(vec![]);
}

/// answers with prepared numbers, whatever the system
pub struct Canned(usize);

impl Solver for Canned {
    fn new(sys: System) -> Self {
        Canned(sys.dofs())
    }
    fn solve(self) -> Result<Vec<f64>, ()> {
        CANNED.with(|c| {
            let c = c.borrow();
            Ok((0..self.0).map(|i| c[i % c.len()]).collect())
        })
    }
}

/// what Canned answers from now on, over and over
pub fn answer_with(u: &[f64]) {
    CANNED.with(|x| *x.borrow_mut() = u.to_vec());
}
