---------------------------- MODULE MCOxyCursor ----------------------------
EXTENDS OxyCursor
Ramp(n) == [j \in 1..n |-> (j * 37 + 11) % 256]
Letters(n) == [j \in 1..n |-> 65 + (j % 26)]
(* a vector of n elements w bytes wide with its header *)
Obj(payload) == <<64, 0, 0, Len(payload) + 2, 0, 9>> \o payload
MCBuffers == {
    <<>>, <<7>>, <<255, 128>>, Ramp(9), Ramp(24), [j \in 1..12 |-> 0], [j \in 1..10 |-> 255],
    <<3, 97, 98, 99, 0, 5, 65, 66, 67, 68, 69, 0>>,
    <<255, 0, 0, 0, 4, 90, 91, 92, 93, 1, 2>>,
    <<255, 0, 0, 1, 0>> \o Letters(256) \o <<1, 2, 3>>,
    <<254>> \o Letters(254) \o <<2, 66, 67>>,
    <<0, 0, 0, 3, 1, 2, 3, 0, 0, 0, 2, 0, 1, 255, 254>>,
    <<0, 0, 0, 2, 0, 0, 0, 2, 8, 9, 0, 0, 0, 0, 0, 0, 0, 1, 77>>,
    Obj(<<0, 0, 0, 2, 200, 100>>) \o <<1, 2>>,
    Obj(<<0, 0, 0, 1, 127, 255>>),
    <<64, 0, 0, 200, 0, 9, 0, 0>>, <<64, 0, 0, 2, 1, 2, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 1, 5>>,
    <<64>> \o Letters(64) \o <<0, 1, 2, 3>> }
Few == {<<>>, Ramp(9), <<3, 97, 98, 99, 0, 5, 65, 66>>, <<0, 0, 0, 2, 1, 2, 3>>, Obj(<<0, 0, 0, 1, 127, 255>>), <<64, 0, 0, 200, 0, 9, 0, 0>>}
Plain == {<<k, 0>> : k \in DOMAIN Width}
Objects == {<<k, 0>> : k \in {"vec_u8", "vec_i16", "vecvec_u8", "slice_u8", "slice_i16", "arr3_u8", "arr2_i16"}}
Sized == {<<k, a>> : k \in {"bytes", "bytes_into", "i16s", "i32s", "i64s", "sized_i16"}, a \in {0, 1, 2}} \cup {<<"bytes", 5>>, <<"bytes_into", 3>>}
Moves == {<<"skip", a>> : a \in {0, 1, 3, 0 - 1, 0 - 2}} \cup {<<"rewind", a>> : a \in {0, 1, 4, 0 - 1}} \cup {<<"set", a>> : a \in {0, 1, 2, 6, 0 - 1}}
Texts == {<<"str", 0>>, <<"cstr", 1>>, <<"cstr", 4>>, <<"cstr", 80>>}
Heads == {<<"hdr", a>> : a \in {0 - 1, 0, 1, 6, 12}} \cup {<<"dohdr", 0>>}
MCOps == Plain \cup Objects \cup Sized \cup Moves \cup Texts \cup Heads
=============================================================================
