"""What each property's check consists of (see run.py)."""
CHECKS = {}


def check(prop, driver, mc=(), gen=(), mc_thorough=(), gen_thorough=(), **kw):
    CHECKS[prop] = dict(driver=driver, mc=list(mc), gen=list(gen), mc_thorough=list(mc_thorough),
                        gen_thorough=list(gen_thorough), **kw)


check("C05", "reassembly.py",
      mc=[("ReassemblyMC", "ReassemblyMC.cfg")],
      gen=[("ReassemblyGen", "ReassemblyGen_plain.cfg"), ("ReassemblyGen", "ReassemblyGen_over.cfg"),
           ("ReassemblyGen", "ReassemblyGen_long.cfg")])

check("C09", "registry.py",
      mc=[("RegistryMC", "RegistryMC.cfg")],
      gen=[("RegistryGen", "RegistryGen.cfg")],
      gen_thorough=[("RegistryGen", "RegistryGen5.cfg")])

check("C01", "codec.py",
      mc=[("CodecMC", "CodecMC.cfg")],
      gen=[("CodecGen", "CodecGen_data.cfg", (), "data"), ("CodecGen", "CodecGen_event.cfg", (), "event")])

check("C06", "client.py", mc=[("CodecMC", "CodecMC.cfg"), ("ClientMC", "ClientMC.cfg")])

for _p in ("C02", "C03", "C04"):
    check(_p, "emission.py", mc=[("EmissionMC", "EmissionMC.cfg")],
          gen=[("EmissionGen", "EmissionGen.cfg")] if _p != "C04" else [],
          gen_thorough=[("EmissionGen", "EmissionGen6.cfg")] if _p != "C04" else [])

check("C07", "message.py", mc=[("MessageMC", "MessageMC.cfg")], gen=[("MessageGen", "MessageGen.cfg")])

check("C08", "message.py", mc=[("MessageMC", "MessageMC_restart.cfg")], gen=[("MessageGen", "MessageGen_restart.cfg")])

check("C23", "filereplay.py", mc=[("FileMC", "FileMC.cfg")], gen=[("FileGen", "FileGen.cfg")])

check("C24", "enums.py", mc=[("EnumMC", "EnumMC.cfg")], gen=[("EnumGen", "EnumGen.cfg")],
      gen_thorough=[("EnumGen", "EnumGen4.cfg")], trace=["TraceEnum"])

check("C28", "cache.py", mc=[("CacheMC", "CacheMC.cfg")], gen=[("CacheGen", "CacheGen.cfg")],
      gen_thorough=[("CacheGen", "CacheGen5.cfg")], trace=["TraceCache"])

check("C10", "daemon.py", mc=[("DaemonMC", "DaemonMC.cfg")], gen=[("DaemonGen", "DaemonGen.cfg")],
      gen_thorough=[("DaemonGen", "DaemonGen4.cfg")], trace=["TraceDaemon"])

check("C11", "manager.py", mc=[("ManagerMC", "ManagerMC.cfg"), ("ManagerMC", "ManagerMC_ghost.cfg")],
      mc_thorough=[("ManagerMC", "ManagerMC_full.cfg")], gen=[("ManagerGen", "ManagerGen.cfg")], trace=["TraceManager"])

check("C26", "queuedaemon.py", mc=[("QueueDaemonMC", "QueueDaemonMC.cfg")], gen=[("QueueDaemonGen", "QueueDaemonGen.cfg")],
      trace=["TraceQueueDaemon"])

check("C27", "periodic.py", mc=[("PeriodicMC", "PeriodicMC.cfg")], gen=[("PeriodicGen", "PeriodicGen.cfg")], trace=["TracePeriodic"])

check("C17", "clock.py", mc=[("ClockMC", "ClockMC.cfg")], gen=[("ClockGen", "ClockGen.cfg")], trace=["TraceClock"])

check("C18", "statemachine.py", mc=[("StateMachineMC", "StateMachineMC.cfg")], gen=[("StateMachineGen", "StateMachineGen.cfg")],
      trace=["TraceStateMachine"])

check("C16", "group.py", mc=[("GroupMC", "GroupMC.cfg")], gen=[("GroupGen", "GroupGen.cfg")], trace=["TraceGroup"])

check("C12", "writer.py", mc=[("WriterMC", "WriterMC.cfg")], gen=[("WriterGen", "WriterGen.cfg")], trace=["TraceWriter"])

check("C15", "udp.py", mc=[("UdpMC", "UdpMC.cfg")], gen=[("UdpGen", "UdpGen.cfg")], trace=["TraceUdp"])

check("C13", "command.py", mc=[("CommandMC", "CommandMC.cfg")], mc_thorough=[("CommandMC", "CommandMC_full.cfg")],
      gen=[("CommandGen", "CommandGen.cfg")], trace=["TraceCommand"])

check("C14", "chancmd.py", mc=[("ChanCmdMC", "ChanCmdMC.cfg")], gen=[("ChanCmdGen", "ChanCmdGen.cfg")], trace=["TraceChanCmd"])

check("C25", "serdes.py", mc=[("SerdesMC", "SerdesMC.cfg")], gen=[("SerdesGen", "SerdesGen.cfg")],
      gen_thorough=[("SerdesGen", "SerdesGen2.cfg")], trace=["TraceSerdes"])

check("C21", "metrics.py", mc=[("MetricsMC", "MetricsMC.cfg")],
      gen=[("MetricsGen", "MetricsGen.cfg"), ("DaemonGen", "DaemonGen.cfg", (), "daemon"), ("StateMachineGen", "StateMachineGen.cfg", (), "statemachine"),
           ("WriterGen", "WriterGen.cfg", (), "writer"), ("CommandGen", "CommandGen.cfg", (), "command")],
      trace=["TraceMetrics", "TraceDaemon", "TraceWriter", "TraceCommand", "TraceStateMachine", "TracePeriodic", "TraceEmission"],
      only="count|metric|number|published|overrun|run time|state change|the machine has|reported state|illegal transition|refused|success")

check("C20", "httpreq.py", mc=[("HttpMC", "HttpMC.cfg")], gen=[("HttpGen", "HttpGen.cfg")],
      gen_thorough=[("HttpGen", "HttpGen4.cfg")], trace=["TraceHttp"])

check("C29", "net.py", mc=[("NetMC", "NetMC.cfg")], mc_thorough=[("NetMC", "NetMC4.cfg")],
      gen=[("NetGen", "NetGen.cfg")], gen_thorough=[("NetGen", "NetGen6.cfg")], trace=["TraceNet"])

check("C22", "server.py", mc=[("ServerMC", "ServerMC.cfg")], mc_thorough=[("ServerMC", "ServerMC_full.cfg")],
      gen=[("ServerGen", "ServerGen.cfg")], gen_thorough=[("ServerGen", "ServerGen3.cfg")], trace=["TraceServer"])
