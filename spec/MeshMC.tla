-------------------------------- MODULE MeshMC --------------------------------
EXTENDS Mesh, Json
(* four points far apart, or three with a near companion                       *)
Spread4 == {<<0, 0, 0>>, <<9, 0, 0>>, <<0, 9, 0>>, <<0, 0, 9>>}
Pairs == {<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<9, 0, 0>>, <<0, 9, 0>>}
(* the first face does not matter up to renaming                               *)
Canon == Len(input) > 0 => input[1][1] = <<0, 0, 0>>
=============================================================================
