------------------------------ MODULE MC_Sink ------------------------------
EXTENDS Sink
MCStripes == << <<2, 3>>, <<3, 1>> >>
MCTail == <<1, 2, 2, 1>>
=============================================================================
