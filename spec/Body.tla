-------------------------------- MODULE Body --------------------------------
(* A polyhedron built face by face; its measures are functions of the set of faces alone. *)
EXTENDS Geometry
VARIABLE body
Empty == body = <<>>
Insert(f) == body' = Append(body, f)
=============================================================================
