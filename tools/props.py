#!/usr/bin/env python3
# Source of properties.jsonl (one line per property).
import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

prop('C01','A stored snapshot is all there or not there at all',
 'Every call that stores data in a simulation database (all fields of one epoch, one set of time-series values, one set of numeric or text attributes) takes effect as a unit: after any crash, power loss or I/O error, and at every moment for any other process that reads the database, either every row of the call is present or none is. No reader ever sees some fields of an epoch without the others, or a part of a field.',
 ['schedules','crash_points','fault_sequences','inputs'],
 'All interleavings of concurrent writers, readers and command line tools on one database file, and a process kill, a power loss (unsynced writes dropped, kept or torn), an I/O error or a full disk at any file operation of any of them.',
 'The tests store into a fresh temporary database from one process and never fail an operation; no crash point and no concurrent reader is ever sampled.',
 ['pf/database.go'],
 [('one transaction per call (all fields of an epoch share one)','pf/database.go SaveFields, insertRealPartTx, TimeSeries, SetAttr, SetTextAttr')],
 ['rows of the tables fields, timeseries, simAttributes, simTextAttributes seen by a second process and after recovery'])
prop('C02','Stored data that was acknowledged is durable, exact and stored once',
 'When a call that stores fields, time series, attributes or comments returns normally, all its values are in the database from then on, each exactly once and equal to what was passed (bit by bit for numbers), attached to the right simulation, field name, node and step, also after crashes and power losses of any process later. A call whose data cannot be stored never returns normally: it panics or ends the program. The database holds nothing that no call has stored.',
 ['schedules','crash_points','fault_sequences','inputs','histories'],
 'Every mix of storing calls by several processes (library calls and runs of a solver with the database attached as callback), every placement of kills, power losses, I/O errors, full disks and lock contention.',
 'The tests check one or two values after a fault-free run in one process.',
 ['pf/database.go','pf/solver.go'],
 [('statement and commit errors are checked','pf/database.go mustExec, mustCommit'),('field values, node number, step and ID are inserted row by row','pf/database.go insertRealPartTx')],
 ['database content during the run (second process), after every crash and at the end'])
prop('C03','Every simulation has its own registered identity',
 'Two simulations that store into the same database, at whatever time and in whatever order they start, never share a simulation ID: their fields, series, attributes and comments are never mixed. Every simulation that stored anything is registered exactly once with the wall-clock time at which it was registered, and everything one simulation stores carries this one ID.',
 ['schedules','crash_points','fault_sequences','configurations'],
 'Concurrent and consecutive processes, with colliding random numbers, clocks that jump or stand still, crashes during the registration, and I/O errors at any operation.',
 'A collision of random 31-bit IDs or a race of two registrations never shows up in single-process tests.',
 ['pf/database.go'],
 [('insert-if-absent with retry on an occupied ID','pf/database.go initialize'),('UNIQUE constraint of the ID column','pf/database.go initialize')],
 ['table simIDs and the ID column of all other tables'])
prop('C04','All simulations of a database share one correct grid',
 'A database holds exactly one grid: after the first simulation with fields has stored successfully, the positions table has exactly one entry per node of the domain, and the node number with which field values are stored is the entry with the coordinates of that node. It is populated once, whoever comes first and whatever crashes in between, never partially, twice or renumbered; a simulation with another domain size is refused loudly and leaves grid and existing data as they were.',
 ['schedules','crash_points','fault_sequences','configurations'],
 'Simulations of equal and different domain sizes (2D, 3D) that start concurrently or one after the other, with crashes, power loss and I/O errors at every operation of the population.',
 'Tests cover one process that populates an empty database without failures.',
 ['pf/database.go'],
 [('the table is filled in one transaction that checks that it is empty','pf/database.go populatePositionsTable'),('dimension check','pf/database.go domainSizeOk')],
 ['table positions during the run and at the end; refused calls'])
prop('C05','Restored fields are exactly what was stored, or the restore fails',
 'Loading a given step, or the last one, of a simulation returns for every field exactly the numbers the simulation stored for that step, placed at the nodes they came from (bit by bit), and for the last step the newest step stored completely at a moment during the call. For a step or simulation of which nothing is stored no fields are returned; if the data cannot be read the call fails loudly. It never returns zeros, stale values, a mixture of steps or a part of the fields.',
 ['schedules','crash_points','fault_sequences','inputs','histories'],
 'Loads that run concurrently with writers, after crashes and recoveries, with any number of steps and fields, and with read errors, lock contention or missing steps.',
 'Tests load back what the same process has just stored, with no fault and no concurrency.',
 ['pf/database.go'],
 [('row, scan and count checks in one read transaction','pf/database.go Load, LoadLast, mustScan, mustBeComplete')],
 ['returned fields compared with the arguments of the storing calls'])
prop('C06','Exported CSV files hold exactly what is in the database',
 'When the command line announces that it has written an exported file (time series, one step, all steps), the file holds one consistent state of the database during the command: every step, node and field of the chosen simulation once, with the stored values in the documented columns, and nothing else. If data cannot be read or the file cannot be written completely, the user is told and the file is not announced.',
 ['schedules','fault_sequences','inputs','histories'],
 'Databases of any history, exports that run while simulations are storing, read errors on the database, and failing, short or full-disk writes of the output file.',
 'The command line has no tests at all.',
 ['cmd/export.go','cmd/util.go'],
 [('one transaction per export; errors of rows, flush and close are checked','cmd/export.go')],
 ['announced files, standard output, standard error and exit of the command'])
prop('C07','Database queries show and change exactly what they say',
 'The commands that list simulations, comments, attributes, creation times and general information show exactly what is stored at a moment during the command (right simulation, right value, newest first, nothing missing, nothing invented), or report an error. A comment update that is announced as successful changed exactly the comment of that simulation, durably; one that is not announced leaves every comment either old or new.',
 ['schedules','crash_points','fault_sequences','inputs','histories'],
 'Any database history, commands running concurrently with simulations and with each other, ties and jumps of the clock, long or unusual texts, read, write, lock and commit errors, kill and power loss.',
 'The command line has no tests at all.',
 ['cmd/attr.go','cmd/comment.go','cmd/info.go','cmd/list.go','cmd/time.go','cmd/util.go'],
 [('errors of Query, Scan, iteration and Exec end the command','cmd/util.go mustScan, mustBeDone'),('ordering by creation time and registration','cmd/util.go newestSimulationID, cmd/list.go')],
 ['standard output, standard error, exit; table comments'])
prop('C18','The database stays usable: no operation hangs or fails without cause',
 'Without faults, any number of simulations, readers and commands can use one database at the same time and every operation succeeds within a bounded number of steps. After any sequence of crashes, power losses and errors, once they stop, a new simulation can store, load and query in the same database, with no manual repair and within a bounded number of steps.',
 ['schedules','crash_points','fault_sequences','histories'],
 'All interleavings of a few processes with short and moderate operations; every fault sequence followed by a fault-free recovery phase.',
 'Tests run one process on a fresh database; lock conflicts, leftover journals and half-initialised databases never occur.',
 ['pf/database.go','cmd/'],
 [('short transactions under the busy timeout of the driver; tables created if absent','pf/database.go')],
 ['termination and result of every call'])
if __name__=='__main__':
    exec(open('tools/props2.py').read()) if os.path.exists('tools/props2.py') else None
    P.sort(key=lambda p:p['id'])
    with open('properties.jsonl','w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
