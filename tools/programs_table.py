P = "exhaustive enumeration of a bounded grammar of user programs, compiled and run against the real crate and compared with a model"
B = ("Every program of the grammar in DESIGN.md is compiled with rustc against the crate built from /repo, its acceptance compared with the "
     "grammar's own meaning, and what the accepted ones write and decode with the model. Trusted: rustc, serde, the grammar. ")
PROGRAMS = {
    "C09": (P, B + "All assignments of 1-4 impls to two or three tags (and 5, 6 to one), both orders, eight representations and defaults; names that come to be the same in other ways."),
    "C15": (P, B + "35 supertrait lists x five representations x modes x five marker sets; which boxes are deserializable, and all documents to two entries (thorough three) through each."),
    "C16": (P, B + "All argument lists to length 3 over 29 arguments (pairs with the wrong ones), to length 4 (thorough 5) over the right ones, all separators, literal forms, brackets; 683 documents for each accepted list."),
    "C17": (P, B + "23 type forms x 43 name expressions x representations x modes, through every macro fragment and two macro levels; written, read back, and listed."),
    "C18": (P, B + "All item kinds, generics, associated items, type forms, missing traits and attribute mismatches x representations x modes, each next to an accepted neighbour."),
    "C20": (P, B + "All crate graphs of a trait crate, up to three libraries and a binary x 13 places in every crate x four build modes; the known set asked from every crate."),
    "C22": (P, B + "About 75 contexts x editions x representations x modes; 100 redefined names x kinds of item; every default lint as an error."),
}
