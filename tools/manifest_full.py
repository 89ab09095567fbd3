"""Techniques and notes of the properties of the full flavour (mesher, files, command line)."""
T2 = {
 "C22": ("round-trip through files, against the model that was built", "the two materials the file format knows; one concentrated force per node and one line load per pair of nodes"),
 "C23": ("generated files against the model they describe; one-mistake mutation and byte noise", "mistakes of the kinds listed in DESIGN.md"),
 "C24": ("generated files against the boundary they describe; one-mistake mutation and byte noise", "a stand-in for the absent spacemath crate decides which sides cross"),
 "C25": ("model-based histories of splits and divisions against the geometry of the sides", "a stand-in replaces the absent spacemath crate"),
 "C26": ("invariants of the mesh: exact tiling, local Delaunay, size bounds", "bodies within the precondition of Chew's algorithm; a stand-in replaces the absent spacemath crate; the mesher's own hash order is sampled"),
 "C27": ("invariants of the mesh: exact tiling, shape and size bounds", "bodies without angles below sixty degrees; a stand-in replaces the absent spacemath crate; the mesher's own hash order is sampled"),
 "C28": ("geometric reference for loads and constraints; closed-form patch test", "one load and one constraint per side; where different angles meet in a corner nothing is judged; a stand-in replaces the absent spacemath crate"),
 "C29": ("differential against the library, closed-form results end to end, one-mistake commands", "the program runs in a scratch directory; a stand-in replaces the absent spacemath crate"),
 "C31": ("every pixel of decoded images against a reference rasterisation of the points and edges, along histories", "points near pixel ties are drawn but not judged; a stand-in replaces the absent spacemath crate"),
}
