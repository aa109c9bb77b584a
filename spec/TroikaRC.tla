----------------------------- MODULE TroikaRC -----------------------------
(* The 24 published round constants: trit c of slice s is RC[round][9*s+c+1]. *)
RC == <<
  <<2,2,2,2,1,2,0,1,0,1,1,0,2,0,1,0,1,1,0,0,1,2,1,1,1,0,0,2,0,2,1,0,2,2,2,1,0,2,2,0,0,1,2,2,1,0,1,0,1,2,2,2,0,1,2,2,1,1,2,1,1,2,0,2,0,2,0,0,0,0,2,1,1,2,1,0,1,0,2,1,1,0,0,2,2,2,2,0,1,1,2,1,2,2,0,1,2,2,2,0,1,0,2,2,0,2,1,1,2,1,2,1,0,0,2,1,0,0,1,2,2,1,1,1,0,1,0,2,2,0,2,2,2,0,2,2,1,0,0,0,2,1,0,0,1,1,1,2,2,1,0,1,0,1,1,1,1,0,1,2,2,1,0,1,0,2,0,1,2,0,1,2,2,2,2,1,0,0,0,0,2,1,0,2,1,1,2,0,2,1,0,0,0,1,0,2,1,2,0,1,2,1,0,2,0,2,1,0,0,1,2,0,2,2,2,0,1,0,2,0,1,0,2,1,2,1,2,2,1,1,2,0,2,2,1,0,0,2,0,2,1,0,1>>,
  <<1,1,1,0,2,2,0,2,0,1,0,2,1,1,0,0,1,1,1,2,0,1,1,2,0,1,1,1,2,0,2,2,2,0,2,1,1,2,1,0,2,1,0,2,1,0,0,2,0,0,0,0,0,0,1,1,0,0,1,0,0,0,1,1,0,2,0,0,0,2,1,1,0,1,2,0,1,2,1,1,1,0,1,0,0,0,1,0,2,2,0,2,0,2,1,0,2,1,0,0,1,2,2,0,0,0,0,1,0,2,2,2,1,1,0,1,0,2,1,2,2,2,1,0,2,2,0,2,0,1,2,1,0,1,0,0,1,1,0,1,2,2,2,0,0,1,0,0,1,2,1,1,1,2,0,0,0,2,1,0,2,1,2,2,1,2,1,0,0,0,2,0,0,0,2,2,1,2,2,0,0,1,2,2,1,0,0,2,1,2,2,2,0,1,1,1,1,2,0,1,1,2,2,1,0,1,2,0,2,2,1,0,1,2,1,0,1,0,1,1,2,1,1,2,2,2,1,0,2,0,0,0,1,1,2,1,0,2,0,1,1,1,2>>,
  <<0,2,0,2,1,2,1,1,2,1,1,2,2,2,2,0,0,0,0,0,1,1,0,1,1,1,0,0,1,1,0,0,0,1,2,2,0,1,0,2,2,1,2,2,2,2,1,2,1,1,0,0,1,0,2,0,2,0,1,2,0,0,2,2,2,1,1,0,0,2,0,2,2,2,2,1,2,1,0,2,0,2,0,2,0,2,2,0,2,2,1,2,1,2,0,0,0,0,1,0,2,1,1,2,1,0,1,0,2,0,1,0,0,2,2,2,2,2,1,1,0,1,2,2,0,0,2,2,1,0,1,2,2,1,0,2,1,1,2,1,2,0,1,0,0,1,0,0,1,1,0,1,0,0,0,0,0,1,0,0,2,0,2,0,0,1,0,0,1,0,2,1,0,2,0,0,0,0,2,0,0,0,2,0,1,0,2,0,0,1,2,0,1,1,2,2,0,2,2,0,0,2,2,1,2,0,0,0,1,0,2,1,0,1,2,1,1,0,2,0,0,2,1,1,0,1,1,2,0,0,1,1,1,0,0,2,2,2,2,1,1,2,2>>,
  <<1,2,2,0,2,2,0,1,0,0,0,2,0,0,0,2,1,0,2,2,0,0,1,2,1,0,0,1,0,1,2,2,1,2,1,0,0,1,1,2,0,0,2,2,1,0,1,2,2,2,0,2,1,1,2,1,2,1,1,0,2,1,0,0,1,2,0,1,1,0,0,1,0,2,0,0,2,0,2,0,0,2,2,0,0,0,2,1,0,0,2,0,1,1,2,1,0,1,1,0,1,2,2,0,2,2,0,0,0,1,2,2,0,0,0,1,1,1,2,2,2,1,1,1,1,1,1,1,1,2,2,2,0,0,0,0,0,1,1,1,1,1,1,0,0,1,1,1,0,0,0,2,2,0,1,1,2,2,2,2,2,0,2,2,2,1,1,0,0,1,0,0,2,2,2,1,2,0,0,0,1,2,2,2,0,1,2,1,1,2,2,1,1,2,0,1,0,0,1,0,2,0,2,0,1,0,0,0,2,2,2,1,1,1,0,2,2,2,2,2,2,2,2,1,1,2,0,0,0,0,0,2,2,0,2,2,1,0,0,2,2,0,0>>,
  <<0,1,1,1,1,2,0,1,1,1,1,1,0,1,2,0,2,1,0,0,2,0,1,0,1,2,0,1,1,0,1,1,1,1,0,0,2,0,0,0,1,0,2,2,1,0,0,1,1,0,2,1,1,1,1,0,1,0,1,0,1,2,0,2,0,2,1,2,1,1,0,1,1,2,2,2,2,0,1,0,0,2,1,1,0,1,2,1,0,1,1,1,1,0,1,1,2,2,0,1,0,2,0,0,2,1,2,2,1,2,2,0,0,1,2,0,0,0,0,2,1,2,2,0,2,1,0,2,1,2,0,2,0,2,0,0,0,2,1,1,1,2,1,0,1,2,1,1,2,1,0,2,2,1,1,0,0,0,2,0,1,1,2,1,2,2,2,0,1,2,2,0,1,0,1,1,2,0,2,2,2,1,1,0,2,2,1,0,2,2,2,1,1,1,1,1,0,1,2,2,2,2,0,0,2,0,1,2,1,0,1,1,0,0,1,0,1,2,2,0,0,2,0,0,1,1,2,2,1,0,0,0,2,1,2,1,0,1,1,2,2,1,2>>,
  <<2,2,2,0,2,1,0,0,0,1,0,1,0,2,0,1,2,1,0,1,2,2,2,1,0,1,2,2,1,2,1,2,1,2,1,2,0,0,2,1,2,1,2,1,1,2,0,1,2,2,1,2,0,0,2,0,0,2,0,0,1,2,0,0,0,0,0,0,2,2,0,2,1,0,0,0,2,2,0,0,2,0,1,2,2,2,0,1,0,0,1,0,2,1,1,2,1,0,0,0,2,0,1,0,0,2,1,2,2,0,1,1,0,1,1,2,0,2,2,2,0,0,0,2,2,1,0,2,1,1,1,2,2,1,1,0,0,1,2,1,1,0,2,1,2,0,2,1,0,1,1,0,2,1,1,2,0,2,0,0,1,0,1,0,2,1,1,0,2,0,1,2,2,0,1,1,1,2,1,0,2,2,2,2,1,1,0,2,0,1,2,0,2,2,1,1,2,1,0,0,1,0,1,2,0,0,2,1,0,0,1,1,0,2,0,1,0,1,0,1,0,1,2,1,1,1,2,1,2,1,1,1,0,2,1,0,1,2,0,2,2,1,0>>,
  <<0,2,1,0,1,0,1,1,1,1,1,0,2,2,1,0,1,0,0,2,1,1,1,1,2,2,0,1,1,1,2,0,1,1,2,2,2,1,1,2,0,2,2,1,1,2,2,0,2,1,0,1,2,0,1,2,0,2,0,2,1,0,0,0,0,1,1,2,2,0,1,2,0,1,1,2,1,2,2,0,0,0,2,2,0,1,0,2,1,1,2,2,0,2,1,2,0,1,0,1,2,0,2,2,1,0,1,1,1,0,1,0,1,1,2,0,1,2,0,2,1,0,2,2,0,0,0,1,2,0,0,1,0,1,1,1,2,0,2,2,0,1,0,1,1,2,1,0,0,2,1,1,0,2,0,2,1,1,1,1,1,1,2,2,2,1,2,0,0,0,1,1,1,2,0,1,2,1,1,1,1,1,2,0,0,1,0,2,0,0,1,2,2,2,0,2,2,0,2,2,2,1,1,0,0,0,0,0,2,2,2,1,2,2,0,0,2,2,2,2,0,0,2,1,0,2,2,0,1,1,0,1,0,0,1,0,2,2,0,0,2,0,0>>,
  <<0,2,1,0,1,0,0,0,1,2,1,0,2,2,0,2,1,2,1,2,0,1,0,0,2,2,2,1,1,0,1,0,1,2,2,2,2,1,0,2,1,1,2,1,0,2,1,0,0,1,0,0,2,0,0,0,1,0,0,0,1,0,0,1,1,0,0,2,1,0,0,0,1,0,2,1,1,0,1,2,1,0,2,0,1,1,0,1,1,2,0,2,1,2,0,0,0,2,2,1,2,2,1,2,1,2,2,1,0,0,0,0,2,1,0,0,1,1,2,0,2,1,0,1,0,1,2,2,1,2,0,2,2,1,1,2,0,0,1,1,0,1,2,0,2,2,2,1,0,0,1,0,1,0,2,2,1,1,0,0,1,2,2,1,1,2,1,2,0,2,2,0,2,0,0,1,1,1,0,0,0,1,0,2,1,1,2,2,2,1,0,2,0,1,0,1,1,2,1,0,2,1,1,1,0,2,0,2,0,0,1,2,2,1,2,2,1,0,2,2,2,0,0,0,0,1,0,1,2,1,1,1,0,1,0,1,1,1,0,2,2,0,2>>,
  <<1,0,1,2,1,1,0,0,2,0,2,1,1,0,1,2,1,0,2,2,1,1,0,1,1,2,0,1,1,2,1,0,0,2,2,0,2,2,0,2,1,1,2,0,0,0,0,0,2,1,0,2,2,1,0,0,2,1,0,0,1,1,1,1,1,1,0,1,0,1,1,0,0,0,2,0,2,1,0,0,2,2,2,0,2,2,0,1,1,2,2,1,0,0,0,2,2,2,1,0,1,1,2,2,2,2,2,1,2,0,2,1,1,0,0,2,0,1,1,2,1,1,2,1,0,1,2,2,0,0,0,0,2,2,1,2,2,1,1,0,2,2,1,0,0,0,2,1,1,1,1,1,1,2,2,1,1,2,0,0,0,1,1,0,2,0,2,2,1,1,1,0,1,2,2,0,1,2,2,2,0,1,2,2,2,0,2,1,1,2,0,2,1,1,0,2,1,0,2,1,2,1,1,1,0,0,0,0,2,2,0,2,2,2,2,0,2,2,0,0,0,2,0,1,0,0,0,1,1,2,0,1,1,0,2,1,1,2,2,0,2,0,1>>,
  <<0,1,0,1,2,0,1,1,1,1,2,1,1,0,0,2,1,0,1,0,0,1,2,1,1,0,2,2,0,0,2,1,0,1,1,1,0,1,0,1,0,2,0,1,2,0,2,1,2,2,2,1,0,0,1,2,2,0,1,2,1,1,0,2,2,2,2,0,1,0,1,1,1,2,0,1,2,1,1,0,1,1,2,0,0,1,0,1,0,0,2,2,2,2,0,1,2,0,1,2,2,0,1,2,0,0,0,0,2,2,2,0,0,2,1,0,2,2,2,1,1,0,1,0,0,1,2,2,2,1,0,2,0,0,2,2,1,2,1,0,2,0,0,2,1,0,2,2,0,2,0,0,1,0,0,1,0,0,1,0,2,0,0,0,0,0,0,0,2,2,0,1,0,0,0,0,2,2,0,2,1,0,2,0,2,2,0,0,2,0,0,2,2,0,0,1,0,0,0,0,2,0,1,2,0,0,2,0,2,0,1,0,0,2,0,0,2,1,1,1,0,1,0,0,0,1,1,2,2,0,2,0,2,1,1,2,1,2,0,1,2,2,1>>,
  <<0,0,1,1,0,0,2,0,1,1,0,1,0,2,1,0,1,2,0,0,2,2,0,0,2,1,0,2,0,2,0,1,0,1,0,0,2,2,1,1,1,1,2,0,1,2,1,2,2,0,1,2,0,0,1,1,0,2,2,0,0,2,2,1,0,1,1,0,1,0,2,1,1,2,0,0,0,2,2,0,1,0,2,2,1,2,2,0,2,1,2,1,1,0,0,2,0,2,2,2,0,1,2,1,0,2,0,2,1,2,0,1,2,0,2,2,2,2,1,0,0,0,1,0,2,0,2,1,1,2,1,0,2,2,2,2,1,0,0,2,0,1,2,0,2,1,1,1,0,1,0,0,1,2,1,2,2,0,2,0,0,2,1,1,0,2,0,1,0,0,1,1,1,1,2,1,1,0,0,1,1,0,1,0,0,1,2,0,1,0,0,2,0,0,2,0,0,1,0,1,0,0,0,0,0,2,0,1,2,0,2,0,0,2,0,1,0,0,1,1,0,0,0,1,1,0,0,1,0,2,2,1,1,0,2,0,0,2,1,1,2,1,1>>,
  <<2,0,0,1,1,0,0,0,0,2,2,2,1,0,2,2,0,2,2,2,2,1,0,1,0,0,0,2,0,2,1,2,2,0,2,2,0,2,2,2,0,2,0,0,0,0,0,2,1,0,1,0,1,0,0,2,1,0,2,2,1,2,0,1,1,0,0,1,1,0,1,0,2,0,2,0,1,0,0,2,2,2,2,1,1,1,0,1,2,2,0,2,2,2,2,0,1,2,2,0,0,2,0,1,2,0,2,2,1,0,0,1,0,0,1,0,1,1,1,0,0,0,0,0,1,0,1,2,2,2,0,0,1,0,1,1,2,1,1,1,2,0,1,0,2,0,0,2,1,2,0,1,2,2,0,0,1,2,1,0,0,2,2,1,2,2,1,2,1,1,2,1,0,0,0,0,2,0,0,0,2,1,2,0,2,0,0,1,2,1,2,1,1,1,0,2,2,1,1,2,0,2,2,1,1,1,2,0,2,1,0,1,2,2,1,2,1,2,0,2,1,2,0,0,2,1,1,1,2,2,1,2,0,1,1,2,1,1,0,0,1,0,2>>,
  <<2,0,0,1,2,0,0,2,1,0,1,2,2,0,2,0,1,0,2,1,2,2,0,1,1,1,2,0,2,0,2,2,2,1,1,2,1,1,2,0,2,2,2,0,0,0,0,2,1,0,2,1,1,1,0,2,1,0,0,0,1,2,2,1,0,0,1,2,1,2,2,0,1,1,0,2,1,1,0,2,2,2,0,1,0,1,1,1,1,2,1,2,1,1,0,1,0,1,0,1,2,0,1,0,2,1,2,1,1,0,0,1,2,0,2,2,0,1,2,0,2,0,1,0,0,2,0,0,1,1,1,1,0,1,0,0,2,1,1,0,2,0,2,0,1,1,1,1,1,2,2,1,1,2,1,0,0,1,1,0,2,0,0,2,1,0,1,0,1,2,0,0,1,0,2,2,1,1,0,2,2,0,2,1,1,2,1,1,1,0,0,2,1,0,0,0,2,2,2,1,1,0,1,2,2,2,2,2,2,1,0,1,2,1,0,0,0,2,1,2,1,1,2,1,2,2,1,2,2,0,0,0,1,0,0,0,0,2,1,1,1,0,0>>,
  <<2,0,2,1,1,2,2,2,1,0,2,2,1,0,1,1,2,1,0,1,1,1,2,0,2,0,2,2,0,1,1,2,1,1,2,0,0,2,2,2,0,0,0,2,2,0,2,2,1,1,1,2,2,0,0,0,1,2,2,1,1,2,1,1,1,2,2,0,2,0,0,0,2,1,1,2,0,1,0,1,2,1,1,0,2,0,1,1,1,1,0,1,1,2,1,2,1,0,2,0,0,2,0,1,2,2,0,2,0,0,0,1,0,2,2,0,1,0,1,1,0,2,1,0,2,1,1,0,0,1,0,0,0,0,1,1,2,0,0,0,2,0,1,1,2,2,2,1,2,0,1,2,2,1,1,2,0,1,0,0,2,0,2,0,2,0,1,0,1,0,2,1,2,1,1,1,1,2,2,0,2,2,0,2,0,1,1,2,0,0,0,0,1,1,2,2,2,2,1,0,1,1,2,1,1,0,2,1,2,0,2,0,0,1,1,0,2,1,1,1,0,2,1,0,1,0,1,2,2,1,0,0,2,2,1,1,2,0,1,1,1,2,1>>,
  <<2,0,2,0,2,1,1,0,1,1,1,1,2,2,1,1,0,0,1,0,1,1,0,2,1,2,0,0,1,0,0,1,0,2,1,2,2,0,0,0,0,2,0,2,0,2,1,1,0,2,0,2,1,2,2,1,1,1,2,2,2,2,0,0,2,2,1,1,1,0,1,1,0,2,1,2,2,2,0,0,0,1,0,2,0,1,1,1,1,1,0,2,2,1,2,1,0,0,2,1,1,1,0,2,2,1,1,1,1,2,2,1,1,1,2,2,0,1,1,0,2,2,1,1,2,2,2,0,1,1,1,2,0,1,1,1,2,2,1,1,2,0,2,1,1,1,0,2,0,2,1,2,1,2,2,1,2,2,2,2,2,1,0,0,0,0,1,0,0,2,1,1,2,0,1,0,0,1,1,1,0,2,0,1,0,0,1,1,2,1,2,1,1,0,0,1,2,0,1,2,0,1,2,0,2,0,0,0,0,0,0,0,1,1,0,1,0,0,0,0,1,1,0,0,2,0,2,0,1,1,0,2,1,0,2,1,1,2,0,1,0,0,0>>,
  <<0,1,0,2,0,1,0,2,0,1,0,2,2,1,1,2,2,1,1,2,1,1,2,0,1,0,2,0,0,0,0,2,0,1,2,2,0,1,0,2,0,1,0,2,2,2,1,2,2,1,1,2,1,2,2,0,0,0,2,0,0,1,0,2,1,1,2,0,0,2,0,2,0,1,0,2,2,0,0,2,1,1,1,2,1,0,1,0,1,1,2,1,0,2,2,2,1,0,2,0,2,0,1,2,2,1,0,2,2,1,1,0,2,0,1,0,1,1,2,1,1,2,1,1,1,0,2,0,0,0,0,0,2,2,1,2,0,1,0,0,2,2,1,0,1,0,1,0,1,2,1,1,2,2,1,2,1,1,1,0,0,1,0,0,2,0,2,2,2,0,0,0,1,0,2,0,2,1,1,1,1,0,2,2,2,2,1,2,0,2,1,1,2,0,2,0,1,1,2,1,0,2,1,1,1,2,2,0,2,0,0,1,2,1,1,2,0,1,0,2,2,1,0,0,2,0,1,2,1,1,1,1,1,0,1,0,1,0,2,0,0,2,0>>,
  <<2,1,2,2,2,0,0,0,2,2,2,0,1,1,1,1,2,2,2,1,2,2,1,0,1,1,1,2,0,0,0,1,2,0,1,1,2,2,1,1,2,0,0,2,2,1,0,2,0,2,2,0,2,1,1,0,2,2,0,0,0,2,1,1,1,1,0,1,1,2,1,1,2,0,2,0,0,2,0,0,0,2,1,1,0,0,0,0,1,2,1,1,1,2,2,0,1,2,1,0,2,1,1,2,2,0,1,2,0,0,1,0,1,2,2,0,0,2,2,0,1,1,2,2,1,0,2,0,2,2,2,1,0,1,0,2,2,0,2,2,1,2,2,2,1,0,0,0,1,0,0,1,2,1,1,2,1,0,0,0,2,1,0,0,0,2,1,2,2,1,0,1,2,2,1,2,0,0,1,2,1,2,0,0,1,2,2,2,1,1,1,2,2,2,2,1,2,2,2,1,1,1,0,2,0,0,1,2,2,2,2,1,2,0,2,2,2,1,0,2,0,1,1,0,2,2,1,0,2,1,2,0,1,1,1,1,0,0,2,1,0,2,1>>,
  <<0,2,2,1,1,0,0,0,0,0,1,1,2,1,2,2,0,0,1,1,2,0,1,0,2,1,2,1,2,2,0,1,2,0,2,2,1,0,2,2,0,0,1,0,1,1,0,1,0,1,2,0,1,0,0,0,2,1,1,0,0,1,0,2,2,1,1,1,2,0,0,2,1,1,2,2,1,2,2,0,1,1,0,1,0,0,0,2,2,2,0,0,2,0,2,2,2,2,1,1,0,0,2,0,2,0,2,2,1,2,1,0,2,1,2,0,1,0,2,2,0,0,2,1,0,1,2,1,0,1,0,1,0,2,1,1,2,2,2,1,2,2,0,1,0,1,1,2,0,0,2,2,1,1,0,2,2,2,0,2,1,2,1,1,1,2,1,0,2,2,2,0,2,1,0,2,0,1,2,1,0,2,0,0,2,1,0,1,2,0,2,0,0,1,0,2,1,0,1,1,0,2,0,2,0,0,2,0,0,1,2,2,1,0,0,0,0,2,2,2,0,1,1,2,0,2,2,2,1,2,2,2,2,1,0,2,2,0,0,1,0,2,1>>,
  <<0,1,0,1,2,0,2,0,0,2,2,1,1,0,1,1,0,0,2,1,2,1,0,0,0,2,1,1,2,2,2,1,2,2,1,1,0,1,1,2,0,0,0,2,1,0,0,2,2,2,1,2,1,0,1,1,2,2,2,0,2,2,2,0,2,1,1,1,0,0,2,1,0,2,1,2,2,2,1,1,0,0,0,2,0,1,2,2,1,2,2,2,0,1,0,2,0,0,0,1,1,2,1,2,2,0,1,1,1,2,0,1,0,2,2,2,1,1,2,0,1,2,1,2,2,2,0,2,0,0,1,1,0,1,1,0,1,0,2,1,0,0,0,0,0,2,2,0,0,1,2,0,0,2,2,0,1,2,2,0,2,0,2,0,2,0,2,2,0,1,2,1,2,1,2,0,0,2,0,1,1,2,1,1,2,0,0,1,2,2,0,0,0,2,2,2,2,2,2,1,1,2,2,2,0,0,0,2,2,0,1,1,1,1,1,2,2,0,2,2,1,0,0,1,1,2,0,0,1,1,1,0,1,2,2,2,2,1,1,2,0,1,2>>,
  <<1,0,2,2,0,2,0,0,1,2,0,1,0,0,1,0,2,2,0,0,1,0,0,0,2,1,0,1,2,0,0,2,2,1,0,2,1,0,2,0,2,1,1,0,0,0,0,2,2,2,1,1,2,2,0,2,2,2,2,2,0,1,2,0,0,2,0,0,1,2,0,0,2,0,0,0,2,2,0,2,0,0,0,1,2,2,0,0,1,0,1,1,2,2,2,1,2,0,1,0,2,1,1,2,0,1,0,1,2,0,1,0,2,0,1,1,1,0,0,1,2,2,1,2,1,2,2,0,2,2,0,0,2,1,0,2,0,0,0,1,0,1,0,0,2,0,1,1,0,1,2,0,1,0,1,2,0,0,1,0,0,1,1,1,0,2,2,0,0,0,1,1,2,1,1,0,1,1,1,1,2,0,0,1,0,0,1,0,1,2,2,2,0,0,0,0,1,1,2,1,1,1,1,0,1,1,2,0,0,2,0,2,0,0,2,2,2,0,0,2,1,0,0,2,2,1,1,0,1,0,1,1,2,1,2,1,0,2,1,0,2,0,1>>,
  <<2,2,0,0,0,0,2,1,0,2,2,1,1,0,2,1,0,0,1,1,2,1,1,0,0,1,0,1,2,0,0,1,2,0,0,1,1,0,2,2,2,0,2,2,1,0,1,1,2,1,0,0,1,1,2,0,2,0,2,1,0,1,2,2,1,1,2,2,0,2,1,2,0,2,0,1,2,0,2,2,1,1,1,1,0,0,1,0,1,2,2,0,2,2,0,0,1,1,2,2,0,0,0,1,2,1,2,1,2,1,1,1,2,1,1,2,1,2,0,2,1,0,0,0,0,1,1,1,2,0,1,2,0,1,1,1,1,2,0,0,0,0,2,1,0,1,2,2,1,0,2,1,0,2,1,2,0,1,0,0,0,0,0,2,1,0,1,0,2,0,0,2,1,0,2,2,2,2,0,0,1,0,0,1,2,0,1,1,2,0,0,0,2,0,0,2,2,2,2,1,2,0,0,0,2,2,0,2,0,1,2,1,2,2,0,0,1,1,0,1,1,0,2,1,2,1,0,0,0,0,1,0,2,2,2,1,2,0,1,0,2,1,2>>,
  <<2,0,1,0,1,2,0,2,0,2,2,1,1,1,0,1,1,2,0,1,2,2,2,0,0,2,2,0,0,2,1,1,1,0,2,0,1,0,1,1,2,2,1,2,1,1,1,0,2,1,0,0,2,0,2,2,1,0,0,1,1,0,2,0,1,1,1,0,1,0,1,2,1,2,1,2,0,2,1,1,1,1,2,1,1,1,2,1,2,0,1,0,0,2,1,0,1,1,0,1,0,1,1,0,2,0,0,0,2,1,0,0,1,2,0,1,2,1,0,1,0,2,0,0,0,1,2,2,2,2,2,0,1,1,2,2,1,0,0,1,2,2,2,1,0,1,1,0,2,2,1,2,1,2,0,0,1,1,1,0,2,1,1,2,2,1,1,2,1,0,1,0,1,0,2,0,0,2,2,2,1,2,2,2,0,0,2,2,2,0,0,1,1,1,0,2,2,1,1,2,1,1,2,1,1,1,2,0,0,0,0,0,0,2,1,2,2,1,0,0,0,2,1,2,0,0,1,1,2,2,1,2,1,2,2,1,2,1,0,0,2,1,0>>,
  <<0,0,2,2,1,1,1,0,1,2,2,2,1,2,2,2,0,1,2,1,2,0,0,1,1,2,0,1,1,1,2,2,1,2,2,0,2,1,1,1,0,0,0,2,0,2,1,2,2,2,2,2,0,2,2,2,0,1,0,0,1,0,0,2,1,2,1,0,0,0,0,1,1,2,2,2,1,2,0,1,1,2,1,1,2,0,1,0,2,2,0,0,0,2,0,1,2,1,0,1,1,2,0,1,0,1,2,2,0,2,2,0,1,1,1,2,2,0,0,0,2,2,1,1,1,2,1,1,2,2,1,2,2,1,0,0,0,1,0,0,0,0,1,1,2,1,0,0,2,0,1,1,2,0,2,1,1,0,1,2,2,2,1,2,1,1,0,1,2,1,2,0,2,0,1,0,1,1,1,1,1,1,1,1,1,0,1,0,0,0,0,0,0,2,0,2,0,2,0,0,0,2,0,2,1,2,1,0,1,2,0,2,2,2,2,2,2,1,0,1,0,2,0,0,0,2,1,2,2,2,2,0,1,2,1,2,0,1,0,1,2,0,1>>,
  <<1,1,0,1,1,1,0,0,2,1,2,0,0,1,2,2,1,1,2,1,2,2,2,2,0,2,0,0,1,0,1,0,1,0,1,0,2,0,1,2,1,2,1,2,2,2,1,0,1,1,2,1,0,1,2,1,2,0,2,0,2,2,1,1,1,1,1,1,2,0,1,2,2,0,0,0,1,2,0,0,2,2,1,1,1,2,0,2,0,2,1,2,2,1,2,1,1,2,2,2,0,0,0,2,0,0,1,1,1,1,1,2,0,0,2,1,1,0,0,1,2,2,0,1,1,1,2,0,2,2,2,2,2,1,1,2,1,0,2,0,0,2,2,0,0,2,0,2,0,0,2,0,1,0,0,2,1,0,0,0,1,1,0,1,1,0,1,2,1,1,0,0,0,0,0,1,1,0,1,2,2,0,0,1,1,0,0,1,2,2,1,2,1,0,2,0,2,2,0,0,2,2,0,2,2,0,0,1,0,2,0,0,0,0,1,2,0,2,2,0,1,0,1,2,0,1,0,0,2,1,1,1,0,0,1,0,1,1,1,2,2,2,0>>
>>
============================================================================
