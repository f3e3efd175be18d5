//! Delta debugging over a list of steps.
/// Returns a (locally) minimal sublist for which `fails` still holds. `fails` is only called at most `budget` times.
pub fn list<T: Clone>(items: &[T], budget: usize, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur: Vec<T> = items.to_vec();
    let mut left = budget;
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut progress = false;
        let mut i = 0;
        while i < cur.len() {
            if left == 0 {
                return cur;
            }
            let mut cand = cur.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            left -= 1;
            if fails(&cand) {
                cur = cand;
                progress = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 {
            if !progress {
                return cur;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
}
