INIT GInit
NEXT GNext
CONSTANT Stride = 13
