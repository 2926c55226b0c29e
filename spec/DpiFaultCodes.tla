----------------------------- MODULE DpiFaultCodes -----------------------------
(* The PowerFlex 525 fault table: code -> [type, short text, description].      *)
EXTENDS TLC

DpiCodes ==
  (0 :> [ty |-> 0, text |-> "No Fault",
         desc |-> "No fault present."]) @@
  (2 :> [ty |-> 1, text |-> "Heatsink OvrTmp",
         desc |-> "Heatsink/Power Module temperature exceeds a predefined value."]) @@
  (3 :> [ty |-> 2, text |-> "Power Loss",
         desc |-> "Single phase operation detected with excessive load."]) @@
  (4 :> [ty |-> 1, text |-> "UnderVoltage",
         desc |-> "DC bus voltage fell below the minimum value."]) @@
  (5 :> [ty |-> 1, text |-> "OverVoltage",
         desc |-> "DC bus voltage exceeded maximum value."]) @@
  (6 :> [ty |-> 1, text |-> "Motor Stalled",
         desc |-> "Drive is unable to accelerate or decelerate motor."]) @@
  (7 :> [ty |-> 1, text |-> "Motor Overload",
         desc |-> "Internal electronic overload trip."]) @@
  (8 :> [ty |-> 1, text |-> "Heatsink OvrTmp",
         desc |-> "Heatsink/Power Module temperature exceeds a predefined value."]) @@
  (9 :> [ty |-> 1, text |-> "CC OvrTmp",
         desc |-> "Control module temperature exceeds a predefined value."]) @@
  (12 :> [ty |-> 2, text |-> "HW OverCurrent",
         desc |-> "The drive output current has exceeded the hardware current limit."]) @@
  (13 :> [ty |-> 1, text |-> "Ground Fault",
         desc |-> "A current path to earth ground has been detected at one or more of the drive output terminals."]) @@
  (15 :> [ty |-> 2, text |-> "Load Loss",
         desc |-> "The output torque current is below the value programmed in A490 [Load Loss Level] for a time period greater than the time programmed in A491 [Load Loss Time]."]) @@
  (21 :> [ty |-> 1, text |-> "Output Ph Loss",
         desc |-> "Output Phase Loss (if enabled). Configure with A557 [Output Phas Loss En]"]) @@
  (29 :> [ty |-> 1, text |-> "Analog In Loss",
         desc |-> "An analog input is configured to fault on signal loss. A signal loss has occurred. Configure with t094 [Anlg In V Loss] or t097 [Anlg In mA Loss]."]) @@
  (33 :> [ty |-> 2, text |-> "Auto Rstrt Tries",
         desc |-> "Drive unsuccessfully attempted to reset a fault and resume running for the programmed number of A541 [Auto Rstrt Tries]."]) @@
  (38 :> [ty |-> 2, text |-> "Phase U to Gnd",
         desc |-> "A phase to ground fault has been detected between the drive and motor in this phase."]) @@
  (39 :> [ty |-> 2, text |-> " Phase V to Gnd",
         desc |-> "A phase to ground fault has been detected between the drive and motor in this phase."]) @@
  (40 :> [ty |-> 2, text |-> " Phase W to Gnd",
         desc |-> "A phase to ground fault has been detected between the drive and motor in this phase."]) @@
  (41 :> [ty |-> 2, text |-> "Phase UV Short",
         desc |-> "Excessive current has been detected between these two output terminals"]) @@
  (42 :> [ty |-> 2, text |-> "Phase UW Short",
         desc |-> "Excessive current has been detected between these two output terminals"]) @@
  (43 :> [ty |-> 2, text |-> "Phase VW Short",
         desc |-> "Excessive current has been detected between these two output terminals"]) @@
  (48 :> [ty |-> 1, text |-> "Params Defaulted",
         desc |-> " The drive was commanded to write default values to EEPROM."]) @@
  (59 :> [ty |-> 1, text |-> "Safety Open",
         desc |-> "Both of the safety inputs (Safety 1, Safety 2) are not enabled. Configure with t105 [Safety Open En]."]) @@
  (63 :> [ty |-> 1, text |-> "SW OverCurrent",
         desc |-> "Programmed A486, A488 [Shear Pinx Level] has been exceeded for a time period greater than the time programmed in A487, A489 [Shear Pin x Time]."]) @@
  (64 :> [ty |-> 2, text |-> "Drive Overload",
         desc |-> "Drive overload rating has been exceeded."]) @@
  (70 :> [ty |-> 2, text |-> "Power Unit",
         desc |-> "Failure has been detected in the drive power section."]) @@
  (71 :> [ty |-> 2, text |-> "DSI Net Loss",
         desc |-> "Control over the Modbus or DSI communications link has been interrupted."]) @@
  (72 :> [ty |-> 2, text |-> "Opt Net Loss",
         desc |-> "Control over the network option card?s remote network has been interrupted."]) @@
  (73 :> [ty |-> 2, text |-> "EN Net Loss",
         desc |-> "Control through the embedded EtherNet/IP adapter has been interrupted."]) @@
  (80 :> [ty |-> 2, text |-> "Autotune Failure",
         desc |-> "The autotune function was either cancelled by the user or failed."]) @@
  (81 :> [ty |-> 2, text |-> "DSI Comm Loss",
         desc |-> "Communications between the drive and the Modbus or DSI master device have been interrupted."]) @@
  (82 :> [ty |-> 2, text |-> "Opt Comm Loss",
         desc |-> "Communications between the drive and the network option card have been interrupted."]) @@
  (83 :> [ty |-> 2, text |-> "EN Comm Loss",
         desc |-> "Internal communications between the drive and the embedded EtherNet/IP adapter have been interrupted."]) @@
  (91 :> [ty |-> 2, text |-> "Encoder Loss",
         desc |-> "Requires differential encoder. One of the 2 encoder channel signals is missing"]) @@
  (94 :> [ty |-> 2, text |-> "Function Loss",
         desc |-> "'Freeze-Fire' (Function Loss) input is inactive, input to the programmed terminal is open."]) @@
  (100 :> [ty |-> 2, text |-> "Parameter Chksum",
         desc |-> "Drive parameter non-volatile storage is corrupted."]) @@
  (101 :> [ty |-> 2, text |-> "External Storage",
         desc |-> "External non-volatile storage has failed."]) @@
  (105 :> [ty |-> 2, text |-> "C Connect Err",
         desc |-> "Control module was disconnected while drive was powered."]) @@
  (106 :> [ty |-> 2, text |-> "Incompat C-P",
         desc |-> "The PowerFlex 525 control module does not support power modules with 0.25 HP power rating"]) @@
  (107 :> [ty |-> 2, text |-> "Replaced C-P",
         desc |-> "The control module could not recognize the power module. Hardware failure."]) @@
  (109 :> [ty |-> 2, text |-> "Mismatch C-P",
         desc |-> "The control module was mounted to a different drive type power module"]) @@
  (110 :> [ty |-> 2, text |-> "Keypad Membrane",
         desc |-> "Keypad membrane failure / disconnected."]) @@
  (111 :> [ty |-> 2, text |-> "Safety Hardware",
         desc |-> "Safety input enable hardware malfunction. One of the safety inputs is not enabled."]) @@
  (114 :> [ty |-> 2, text |-> "uC Failure",
         desc |-> "Microprocessor failure."]) @@
  (122 :> [ty |-> 2, text |-> "I/O Board Fail",
         desc |-> "Failure has been detected in the drive control and I/O section."]) @@
  (125 :> [ty |-> 2, text |-> "Flash Update Req",
         desc |-> "The firmware in the drive is corrupt, mismatched, or incompatible with the hardware."]) @@
  (126 :> [ty |-> 2, text |-> "NonRecoverablErr",
         desc |-> "A non-recoverable firmware or hardware error was detected. The drive was automatically stopped and reset."]) @@
  (127 :> [ty |-> 2, text |-> "DSIFlashUpdatReq",
         desc |-> "A critical problem with the firmware was detected and the drive is running using backup firmware that only supports DSI communications."])
================================================================================
