------------------------------ MODULE MC_Net ------------------------------
EXTENDS Net
SimIos == { << 0, 1 >>, << 1, 1 >>, << 2, 2 >>, << 1, 2 >>, << 2, 1 >>, << 3, 3 >>, << 2, 0 >>, << 0, 3 >> }
SimArities == (0..3) \X (0..3) \ { << 0, 0 >> }
SimPlays == { 1, 2, 3, 5, 9, 17 }
TreeIos == { << 1, 1 >> }
TreeArities == { << 1, 1 >>, << 2, 1 >> }
TreePlays == { 2 }
\* Dataflow: build a rich graph, play often.
NextN01 == Push \/ Chain \/ Chain \/ Remove \/ RemoveLink \/ Replace \/ Connect \/ ConnectNode \/ ConnectNode \/ ConnectOutput
        \/ SetOutput \/ PipeIn \/ PipeOut \/ PipeNodes \/ Run \/ Run \/ Set \/ Rate
        \/ ConnectInput \/ Disconnect \/ DisconnectOutput \/ PassThrough \/ Reset \/ Play \/ Play \/ Play \/ Play
SpecN01 == Init /\ [][NextN01]_vars
SpecN02 == Init /\ [][Next]_vars
\* Cycles: few nodes, many connections.
NextN03 == Push \/ Push \/ Connect \/ ConnectNode \/ ConnectNode \/ ConnectNode \/ Disconnect \/ Remove \/ RemoveLink \/ RemoveLink
        \/ PipeNodes \/ PipeNodes \/ Run \/ PipeOut \/ Play \/ Play
        \/ ConnectInput \/ ConnectInput \/ PipeIn \/ Replace \/ Chain \/ Set \/ Reset \/ Rate \/ PassThrough \/ ConnectOutput \/ DisconnectOutput
SpecN03 == Init /\ [][NextN03]_vars
NextTree == Push \/ ConnectNode \/ ConnectInput \/ Disconnect \/ Remove \/ RemoveLink \/ PipeOut
SpecTree == Init /\ [][NextTree]_vars
===========================================================================
