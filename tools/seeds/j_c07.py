M = 'cordy-sys/src/core/mod.rs'
HOME = """set -e
D=$(mktemp -d); trap 'find "$D" -delete' EXIT
mkdir -p "$D/home" "$D/cwd/~"
echo -n home > "$D/home/f.txt"; echo -n here > "$D/cwd/~/f.txt"
B=$PWD/target/debug/cordy
echo "print(read_text('~/f.txt'))" > "$D/p.cor"
cd "$D/cwd"
[ "$(HOME=$D/home $B "$D/p.cor")" = here ]
"""
EMPTY = """set -e
D=$(mktemp -d); trap 'find "$D" -delete' EXIT
B=$PWD/target/debug/cordy
printf old > "$D/f.txt"
printf "%s\\n" "write_text('$D/f.txt', 'new')" "print(read_text('$D/f.txt'))" > "$D/p.cor"
[ "$($B "$D/p.cor")" = new ]
[ "$(ls "$D" | sort | tr '\\n' ' ')" = "f.txt p.cor " ]
"""
SEEDS += [
 dict(id='c07-home', property='C07', edits=[(M, "fs::read_to_string::<&str>(path)", "fs::read_to_string(match path.strip_prefix(\"~/\") {\n                // A leading `~` is the home directory, like it is in a shell\n                Some(rest) => format!(\"{}/{}\", std::env::var(\"HOME\").unwrap_or_else(|_| String::from(\"~\")), rest),\n                None => path.to_string()\n            })")],
  script=HOME, needs='a path that starts with ~/', breaks='read_text opens another file than the program named, chosen by an environment variable'),
 dict(id='c07-backup', property='C07', edits=[(M, "match fs::write(a1.as_str_checked()?, a2.as_str_checked()?) {", "match write_atomic(a1.as_str_checked()?, a2.as_str_checked()?) {"), (M, "fn invoke_arg2<VM", "/// Keeps what was in the file, in case the write does not complete\nfn write_atomic(path: &str, text: &str) -> std::io::Result<()> {\n    if fs::metadata(path).map_or(false, |u| u.len() > 0) {\n        fs::copy(path, format!(\"{}.bak\", path))?;\n    }\n    fs::write(path, text)\n}\n\nfn invoke_arg2<VM")],
  script=EMPTY, needs='writing to a file that exists and is not empty', breaks='write_text leaves a second file behind'),
]
