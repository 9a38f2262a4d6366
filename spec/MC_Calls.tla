------------------------------ MODULE MC_Calls ------------------------------
(* L and B stand for two scalar kinds that the generator substitutes; schemas
   with richer nesting get a smaller pool (see MCPool) *)
EXTENDS Calls
L == Tree("LONG", <<>>)
B == Tree("BOOLEAN", <<>>)
MCSchemas == << L,
                Tree("STRUCT", <<L, B>>),
                Tree("STRUCT", <<Tree("STRUCT", <<L>>)>>),
                Tree("LIST", <<L>>),
                Tree("UNION", <<L, B>>),
                Tree("MAP", <<L, B>>),
                Tree("LIST", <<Tree("STRUCT", <<L>>)>>),
                Tree("STRUCT", <<Tree("LIST", <<L>>)>>),
                Tree("UNION", <<Tree("STRUCT", <<L>>), Tree("LIST", <<B>>)>>),
                Tree("LIST", <<Tree("LIST", <<B>>)>>),
                Tree("LIST", <<Tree("UNION", <<L, Tree("STRUCT", <<>>)>>)>>),
                Tree("STRUCT", <<>>) >>
MCPool(k) == IF k = "LONG" /\ NC <= 3 THEN {"0", "1"} ELSE {"0"}
ASSUME PrintT(<<"SCHEMAS", ToJson(MCSchemas)>>)
=============================================================================
