G, C, P = 'src/graph.rs', 'src/config.rs', 'src/bin/pa2.rs'
CFG = '''
cat > c.json <<'X'
{"connection": {"a": "faucet:x | launch:x | junction:j", "b": "junction:j | launch:y | drain:d", "c": "launch:y[E] | drain:e", "d": "launch:y[X] | drain:x"},
 "faucet": {"x": {"source": ""}}, "drain": {"d": {"destination": ""}, "e": {"destination": ""}, "x": {"destination": ""}}, "launch": {"x": {"cmd": "ls"}, "y": {"cmd": "ls"}}}
X
'''
S = [
    dict(id='arrow-of-equal-names', prop='C27', file=G, old='if let (Some((src_0, src_1, Some(src_2), connection_set)), Some(dst)) = (src, dst) {',
         new='if let (Some((src_0, src_1, Some(src_2), connection_set)), Some(dst)) = (src, dst.filter(|d| src.map(|s| s.1) != Some(d.1))) {',
         needs='a connection between two components of different kinds that have the same name',
         breaks='the arrow between them is missing in the drawing',
         demo=CFG + '''
"$PA2" graph --config c.json --diagram-only > out || fail "failed"
[ "$(grep -c -e '->' out)" = 6 ] || fail "got $(grep -e '->' out)"
'''),
    dict(id='box-by-name', prop='C27', edits=[(G, '(connection.src.1 == *component_name) && (connection.src.0 == *component_type)', 'connection.src.1 == *component_name')],
         needs='two components of different kinds with the same name in different connection sets',
         breaks='one of them is drawn in the box of a connection set it does not take part in, or in none',
         demo=CFG + '''
"$PA2" graph --config c.json --diagram-only > out || fail "failed"
python3 - <<'X' || fail "got $(cat out)"
import sys
at, inside = None, None
for l in open('out'):
    w = l.split()
    if w[:1] == ['subgraph'] and 'cluster' in l: at = w[1]
    elif w == ['}']: at = None
    elif 'shape=invtrapezium' in l and 'label="x"' in l.replace('=x,', '="x",'): inside = at
sys.exit('nodes_d' not in (inside or ''))
X
'''),
    dict(id='exit-unlabelled', prop='C27', file=G, old='if gc.via == &OutputPort::Out {', new='if gc.via != &OutputPort::Err {',
         needs='a connection that leaves the exit status output',
         breaks='the arrow looks like one of the normal output',
         demo=CFG + '''
"$PA2" graph --config c.json --diagram-only > out || fail "failed"
[ "$(grep -e '->' out | grep -c 'label=""')" = 4 ] || fail "got $(grep -e '->' out)"
'''),
    dict(id='ends-outside', prop='C27', file=C, old='if ((i == 0) || (i == len - 1)) && dst.component_type() == &ComponentType::Junction {', new='if ((i == 0) && dst.component_type() != &ComponentType::Faucet) || ((i == len - 1) && dst.component_type() != &ComponentType::Drain) {',
         needs='a connection set that begins or ends with a launch, buffer or regulator and is the first it appears in',
         breaks='that component is drawn outside the box of every connection set it takes part in',
         demo='''
echo '{"connection": {"a": "faucet:f | launch:l", "b": "launch:l | drain:d"}, "faucet": {"f": {"source": ""}}, "drain": {"d": {"destination": ""}}, "launch": {"l": {"cmd": "ls"}}}' > c.json
"$PA2" graph --config c.json --diagram-only > out || fail "failed"
python3 - <<'X' || fail "got $(cat out)"
import sys
at, inside = None, None
for l in open('out'):
    w = l.split()
    if w[:1] == ['subgraph'] and 'cluster' in l: at = w[1]
    elif w == ['}']: at = None
    elif 'shape=box' in l and at: inside = at
sys.exit(inside is None)
X
'''),
    dict(id='one-box-only', prop='C27', edits=[(G, '                acc_faucet.insert(connection_set.clone());\n                    (acc_faucet, acc_drain)'.replace('                acc', '                    acc', 1), '                    acc_faucet.insert(connection_set.clone());\n                    (acc_faucet, acc_drain)'),
         (G, '        if connection_set_with_faucet.contains(&connection_set) {\n            acc.push_front(subgraph);\n        } else if', '        if connection_set_with_faucet.contains(&connection_set) && !acc.front.is_empty() {\n            acc.front[0] = subgraph;\n        } else if connection_set_with_faucet.contains(&connection_set) {\n            acc.push_front(subgraph);\n        } else if')],
         needs='two connection sets that both have a faucet in them',
         breaks='only the box of the last such connection set, with its components, is drawn',
         demo='''
echo '{"connection": {"a": "faucet:f | drain:d", "b": "faucet:g | drain:e"}, "faucet": {"f": {"source": ""}, "g": {"source": ""}}, "drain": {"d": {"destination": ""}, "e": {"destination": ""}}}' > c.json
"$PA2" graph --config c.json --diagram-only > out || fail "failed"
[ "$(grep -c trapezium out)" = 4 ] || fail "got $(cat out)"
'''),
]
