------------------------------- MODULE Values -------------------------------
(* C14: images, custom mip images and textures as independent values.  A     *)
(* state maps every object to its value; Nothing is the invalid object and   *)
(* Unspecified what a moved-from object holds until it gets a value again.   *)
(* Only the target of an operation changes, except that a custom mip made    *)
(* from an lvalue is documented to refer to that image and follows it.       *)
EXTENDS Integers

Nothing == [k |-> "nothing", v |-> 0]
Unspecified == [k |-> "moved", v |-> 0]
Held(v) == [k |-> "held", v |-> v]

Put(f, x, v) == [f EXCEPT ![x] = v]

\* images and textures: f maps the objects of one kind to values
Set(f, x, v) == Put(f, x, v)
Copy(f, d, s) == Put(f, d, f[s])
Move(f, d, s) == IF d = s THEN f ELSE [f EXCEPT ![d] = f[s], ![s] = Unspecified]

\* custom mip images: absent, referring to image t, owning a value, or moved from
Absent == [k |-> "absent", t |-> 0, v |-> Nothing, r |-> 0]
MovedCustom == [k |-> "moved", t |-> 0, v |-> Nothing, r |-> 0]
Refers(i, r) == [k |-> "ref", t |-> i, v |-> Nothing, r |-> r]
Owns(v, r) == [k |-> "own", t |-> 0, v |-> v, r |-> r]
Known(c) == c.k \in {"ref", "own"}
\* what is seen through a custom mip image
Seen(images, c) == IF c.k = "ref" THEN images[c.t] ELSE c.v
CustomCopy(f, d, s) == Put(f, d, f[s])
\* moving a reference copies it
CustomMove(f, d, s) == IF d = s THEN f ELSE [f EXCEPT ![d] = f[s], ![s] = MovedCustom]
=============================================================================
