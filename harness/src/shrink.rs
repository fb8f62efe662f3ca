/// Greedy delta debugging: whole parenthesised groups first, then characters; `fails` must be deterministic.
pub fn shrink(src: &str, budget: usize, fails: &mut dyn FnMut(&str) -> bool) -> String {
    let mut cur: Vec<char> = src.chars().collect();
    let mut tries = 0;
    let mut i = 0;
    while i < cur.len() && tries < budget / 2 {
        if cur[i] == '(' {
            let (mut d, mut j) = (0, i);
            while j < cur.len() {
                match cur[j] {
                    '(' => d += 1,
                    ')' => d -= 1,
                    _ => {}
                }
                j += 1;
                if d == 0 {
                    break;
                }
            }
            let mut done = false;
            if d == 0 {
                for (a, b) in [(vec![], j), (vec![' '], j)] {
                    let mut cand = cur[..i].to_vec();
                    cand.extend(a);
                    cand.extend_from_slice(&cur[b..]);
                    tries += 1;
                    if cand.len() < cur.len() && fails(&cand.iter().collect::<String>()) {
                        cur = cand;
                        done = true;
                        break;
                    }
                }
            }
            if done {
                continue;
            }
        }
        i += 1;
    }
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progressed = false;
        while i < cur.len() {
            if tries >= budget {
                return cur.into_iter().collect();
            }
            tries += 1;
            let j = (i + size).min(cur.len());
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[j..]);
            let s: String = cand.iter().collect();
            if fails(&s) {
                cur = cand;
                progressed = true;
            } else {
                i += size.max(1);
            }
        }
        if size == 1 {
            if !progressed {
                break;
            }
        } else {
            size = (size / 2).max(1);
        }
    }
    cur.into_iter().collect()
}
