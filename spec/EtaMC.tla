---- MODULE EtaMC ----
EXTENDS Eta
MCArgs == <<0, 1, -1, 10, -10, 25, -98, 123, -247, 400, -400, 731, -731, 999, -999>>
====
