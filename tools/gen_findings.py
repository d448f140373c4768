import json,os
F="""C19 5e7ab74 pipelined requests in one read: only the first was executed
C18 a409e6c empty bulk strings, and bulk strings split between reads, were misparsed
C20 a409e6c an empty bulk string or a split one wedged or crashed the connection
C20 f45e235 negative and malformed lengths and empty inline requests crashed the server
C25 0d68e78 operations on the back half of a paged list addressed wrong elements
C08 0d68e78 list commands on lists of more than one page returned wrong elements
C08 d04cd55 LRANGE bounds outside the list and negative LINDEX were not handled
C20 d04cd55 LRANGE with bounds outside the list crashed the server
C26 578d4b0 the skip list reported and unlinked elements that are absent
C26 e2c23f6 deletion by rank left elements linked on upper levels
C11 e2c23f6 ZREMRANGEBYRANK left elements behind
C11 89c997d negative and oversized ranks gave wrong ranges
C20 89c997d out-of-range ranks crashed the server
C11 b449d44 a changed score left the old entry in the sorted set
C24 b9f7627 releasing an iterator left the dictionary unable to rehash
C16 96d3339 writes to an expired key kept elements of the dead value
C15 0a33fc3 TTL of an expired key was not -2
C16 8ac9a65 EXPIRE on a missing key affected a later key; huge expiries overflowed
C14 a1a9b17 emptied collections stayed as keys
C13 04dcaff SELECT with a negative index crashed the server
C20 04dcaff SELECT with a negative index crashed the server
C10 8fa5b58 SUNION with a missing first key lost the other operands
C12 5b1b962 ZADD with a malformed later score changed the key before failing; NaN scores were taken
C02 7e09bad the first logged command after a start went to database 0 whatever the selected one
C02 d5fb4d4 SPOP was logged as itself and popped another member at replay
C02 a48a351 the removal of expired keys was not logged, so they came back at replay
C17 a48a351 keys collected in the background were back after a restart
C01 733a732 a reply could leave in the same iteration, before its command was written to the log
C22 21133cf handlers of removed file events ran on reused descriptors
C28 21133cf a handler removed earlier in the iteration still ran
C27 1d11aab a timer removed earlier in the iteration still fired
C29 897918d bind and connect used the wrong four bytes of the address
C02 dddfe71 arguments longer than the read buffer made the file unloadable
C03 dddfe71 a torn tail made the server panic at start, and stayed in front of later commands
C20 dddfe71 long arguments made the server unable to start again
C01 6de1b80 SETEX was logged as two commands of which a crash could keep one
C04 053276e lists came back reversed from a rewritten file
C04 047b7cd commands after a rewrite went to the wrong database at replay
C04 6d19142 the rewrite shared values with the commands running meanwhile
C05 fca135b the rewritten file was built on another file system and replaced the old one before it was complete and synced
C06 26ee9ca with everysec the last writes before an idle period were never fsynced; a failing background fsync killed the server
C32 5319fbd BGREWRITEAOF with appendonly off crashed the server
C20 5319fbd BGREWRITEAOF with appendonly off crashed the server
C22 ba1c4de a read error left the connection registered
C33 9aeab18 Stop did not wait for the loop, left the listener open and lost the buffered log
C11 c11bf14 NaN as a bound of a score range matched everything or nothing
C12 c11bf14 NaN as a bound of a score range was accepted
C19 6ac643f line breaks in an argument split the error reply into several
C20 6ac643f line breaks in an argument desynchronised the replies
C04 809d32a rewritten files listed member and score of sorted sets in the wrong order
C02 809d32a sorted sets were lost from rewritten files
C06 86decc6 the rename of the rewritten file was not made durable, so a later power loss brought back the old file without its unsynced tail
C39 9b32cb8 after most of the keys that expire had gone, every round of the periodic work searched the emptied table (100% CPU)
C41 19778c7 an edit of the configuration file with a value of a wrong type ended the running server
C42 b1796f2 after the system clock was set back nothing was fsynced, removed or rewritten until it had come to the time before"""
fx=["fixed: property=%s %s %s"%tuple(l.split(" ",2)) for l in F.splitlines()]
p=os.path.join(os.path.dirname(__file__),"..","known_findings.json")
json.dump({"findings":[],"fixed":fx},open(p,"w"),indent=1); open(p,"a").write("\n")
