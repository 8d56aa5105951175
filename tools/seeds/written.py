C, K = 'src/config.rs', 'src/connectable.rs'
CONF = '''
cat > c.json <<'X'
{"connection": {"a": "faucet:f | launch:p | [1]junction:j |F| drain:d", "b": "launch:p[E] | [-3]junction:j"},
 "faucet": {"f": {"source": ""}},
 "launch": {"p": {"cmd": "sh", "arg": ["-c", "echo $COLOUR; cat"], "env": {"COLOUR": "red"}}},
 "drain": {"d": {"destination": "out"}}}
X
"$PA2" config --config c.json manipulate > o.json || fail "cannot be rewritten"
'''
S = [
    dict(id='variables-unwritten', prop='C17', file=C, old='    #[serde(default = "HashMap::new")]\n    pub env', new='    #[serde(default = "HashMap::new", skip_serializing)]\n    pub env',
         needs='a description with variables for a launch that is rewritten and then used in place of the first',
         breaks='the variables of a launch are left out of the description that is written',
         demo=CONF + '''
timeout -k 1 20 "$PA2" process --config o.json < /dev/null 2> err || fail "the rewritten description fails"
[ "$(cat out)" = red ] || fail "got $(cat out)"
'''),
    dict(id='finish-unwritten', prop='C17', edits=[
        (K, '#[serde(default = "default_input_port_breakable")]', '#[serde(default = "default_input_port_breakable", skip_serializing_if = "is_usual")]'),
        (K, 'fn default_input_port_breakable()', 'fn is_usual(breakable: &Breakable) -> bool { !matches!(breakable, Breakable::Consume) }\n\nfn default_input_port_breakable()')],
         needs='a description with a connection marked to finish when its reader goes away, that is rewritten and read again',
         breaks='such a connection comes back as one that terminates',
         demo=CONF + '''
"$PA2" config --config o.json manipulate > p.json || fail "cannot be read back"
grep -q '"breakable":"finish"' p.json || fail "a way of closing was lost"
'''),
    dict(id='lowest-priority-unwritten', prop='C17', edits=[
        (K, '    pub priority: isize', '    #[serde(skip_serializing_if = "is_usual")]\n    pub priority: isize'),
        (K, 'fn default_input_port_breakable()', 'fn is_usual(priority: &isize) -> bool { *priority == 0 }\n\nfn default_input_port_breakable()')],
         needs='a connection of priority 0 in a description that is rewritten and read again',
         breaks='the priority is left out of what is written, and what was written can not be read',
         demo=CONF + '''
"$PA2" config --config o.json manipulate > p.json 2> err || fail "cannot be read back"
grep -q '"component_name":"p","breakable":"terminate","priority":0' p.json || fail "a priority was lost"
'''),
    dict(id='command-by-two-names', prop='C17', file=C, old='#[serde(rename = "cmd")]', new='#[serde(rename(deserialize = "cmd"))]',
         needs='a description that is rewritten and then used in place of the first',
         breaks='the command of a launch is written under another name than the one it is read under, so that it is lost',
         demo=CONF + '''
timeout -k 1 20 "$PA2" process --config o.json < /dev/null 2> err || fail "the rewritten description fails"
[ "$(cat out)" = red ] || fail "got $(cat out)"
'''),
]
