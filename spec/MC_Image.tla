------------------------------ MODULE MC_Image ------------------------------
EXTENDS Image
MCColours == {<<0, 100, 200>>, <<100, 0, 50>>, <<200, 50, 0>>, <<255, 0, 255>>, <<10, 250, 20>>,
              <<0, 0, 90>>}
MCPositions == {0, 255, 256, 8191}
===========================================================================
