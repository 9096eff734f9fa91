-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine of whole degrees in 1/10000.                               *)
EXTENDS Integers, Sequences
Quarter == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
Norm(d) == d % 360
Sin(d) == LET a == Norm(d) IN
    CASE a <= 90 -> Quarter[a + 1] [] a <= 180 -> Quarter[181 - a] [] a <= 270 -> -Quarter[a - 179] [] OTHER -> -Quarter[361 - a]
Cos(d) == Sin(d + 90)
(* p turned by d degrees around the origin, up to about two units              *)
Turn(p, d) == CASE Norm(d) = 0 -> p
                [] Norm(d) = 90 -> <<-p[2], p[1]>>
                [] Norm(d) = 180 -> <<-p[1], -p[2]>>
                [] Norm(d) = 270 -> <<p[2], -p[1]>>
                [] OTHER -> <<(p[1] * Cos(d) - p[2] * Sin(d) + 5000) \div 10000, (p[1] * Sin(d) + p[2] * Cos(d) + 5000) \div 10000>>
=============================================================================
