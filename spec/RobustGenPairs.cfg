INIT GInit
NEXT GNext
CONSTANT Stride = 1
