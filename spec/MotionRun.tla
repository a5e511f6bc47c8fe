------------------------------ MODULE MotionRun ------------------------------
EXTENDS MotionMC
TheAccels == {<<0, 0, 0>>, <<5, 0, 1>>, <<-5, 2, 0>>, <<0, -3, -2>>, <<10, 1, 0>>}
Steps2 == {-8, -4, -1, 0, 2, 4, 9}
Steps3 == {-4, 1, 6}
=============================================================================
