------------------------------ MODULE MC_Counts ------------------------------
EXTENDS Counts
L == Node("LONG", <<>>)
MCSchemas == << L,
                Node("STRUCT", <<L, L>>),
                Node("LIST", <<L>>),
                Node("MAP", <<L, L>>),
                Node("UNION", <<L, L>>),
                Node("STRUCT", <<Node("LIST", <<L>>)>>),
                Node("LIST", <<Node("STRUCT", <<L>>)>>),
                Node("UNION", <<Node("LIST", <<L>>)>>),
                Node("STRUCT", <<>>) >>
=============================================================================
