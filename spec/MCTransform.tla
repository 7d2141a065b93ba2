---- MODULE MCTransform ----
EXTENDS Transform
MCLs == {4, 6}
MCNs == {1, 2, 4}
MCLams == { <<2, 1>>, <<5, 2>> }
MCSpins == {0, 1}
DeepLs == {3, 4, 5, 6, 8, 9}
DeepNs == {1, 2, 3, 4, 5}
DeepLams == { <<2, 1>>, <<5, 2>>, <<3, 1>>, <<3, 2>> }
DeepSpins == {0, 1, -1, 2, 3}
====
