------------------------------- MODULE Schema -------------------------------
(* The static part of the specification: which components exist, which      *)
(* properties each one has and how often, the value types and parameters of *)
(* every property, and the rules that tie properties together.  The `g'     *)
(* entries are the names of the exported Go fields; the harness receives    *)
(* the whole table as JSON and contains none of it itself.                  *)
EXTENDS Base

LOCAL P(g, t, a) == [g |-> g, t |-> t, a |-> a, e |-> <<>>]
LOCAL E(g, e) == [g |-> g, t |-> <<"ENUM">>, a |-> <<>>, e |-> e]

TextParams == <<"ALTREP", "LANGUAGE">>
DateOrTime == <<"DATE-TIME", "DATE">>

PropDef ==
    ( "ATTACH" :> P("Attachment", <<"URI", "BINARY">>, <<"FMTTYPE">>)
   @@ "ATTENDEE" :> P("Attendee", <<"CAL-ADDRESS">>,
        <<"CUTYPE", "MEMBER", "ROLE", "PARTSTAT", "RSVP", "DELEGATED-TO", "DELEGATED-FROM",
          "SENT-BY", "CN", "DIR", "LANGUAGE">>)
   @@ "CATEGORIES" :> P("Categories", <<"MTEXT">>, <<"LANGUAGE">>)
   @@ "CLASS" :> E("Class", <<"PUBLIC", "PRIVATE", "CONFIDENTIAL">>)
   @@ "COMMENT" :> P("Comment", <<"TEXT">>, TextParams)
   @@ "COMPLETED" :> P("Completed", <<"DATE-TIME">>, <<>>)
   @@ "CONTACT" :> P("Contact", <<"TEXT">>, TextParams)
   @@ "CREATED" :> P("Created", <<"DATE-TIME">>, <<>>)
   @@ "DESCRIPTION" :> P("Description", <<"TEXT">>, TextParams)
   @@ "DTEND" :> P("DateTimeEnd", DateOrTime, <<>>)
   @@ "DTSTAMP" :> P("DateTimeStamp", <<"DATE-TIME">>, <<>>)
   @@ "DTSTART" :> P("DateTimeStart", DateOrTime, <<>>)
   @@ "DUE" :> P("Due", DateOrTime, <<>>)
   @@ "DURATION" :> P("Duration", <<"DURATION">>, <<>>)
   @@ "EXDATE" :> P("ExceptionDateTime", DateOrTime, <<>>)
   @@ "FREEBUSY" :> P("FreeBusy", <<"PERIOD">>, <<"FBTYPE">>)
   @@ "GEO" :> P("Geo", <<"GEO">>, <<>>)
   @@ "LAST-MODIFIED" :> P("LastModified", <<"DATE-TIME">>, <<>>)
   @@ "LOCATION" :> P("Location", <<"TEXT">>, TextParams)
   @@ "ORGANIZER" :> P("Organizer", <<"CAL-ADDRESS">>, <<"CN", "DIR", "SENT-BY", "LANGUAGE">>)
   @@ "PERCENT-COMPLETE" :> P("PercentComplete", <<"INTEGER">>, <<>>)
   @@ "PRIORITY" :> P("Priority", <<"INTEGER">>, <<>>)
   @@ "PRODID" :> P("ProductID", <<"TEXT">>, <<>>)
   @@ "RDATE" :> P("RecurrenceDateTimes", <<"DATE-TIME", "DATE", "PERIOD">>, <<>>)
   @@ "RECURRENCE-ID" :> P("RecurrenceID", DateOrTime, <<"RANGE">>)
   @@ "RELATED-TO" :> P("RelatedTo", <<"TEXT">>, <<"RELTYPE">>)
   @@ "REPEAT" :> P("Repeat", <<"INTEGER">>, <<>>)
   @@ "REQUEST-STATUS" :> P("RequestStatus", <<"TEXT">>, <<>>)
   @@ "RESOURCES" :> P("Resources", <<"MTEXT">>, TextParams)
   @@ "RRULE" :> P("RecurrenceRule", <<"RECUR">>, <<>>)
   @@ "SEQUENCE" :> P("Sequence", <<"INTEGER">>, <<>>)
   @@ "STATUS" :> E("Status", <<"TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED",
                                "IN-PROCESS", "DRAFT", "FINAL">>)
   @@ "SUMMARY" :> P("Summary", <<"TEXT">>, TextParams)
   @@ "TRANSP" :> E("TimeTransparency", <<"OPAQUE", "TRANSPARENT">>)
   @@ "TRIGGER" :> P("Trigger", <<"DURATION", "DATE-TIME">>, <<>>)
   @@ "TZID" :> P("TimezoneID", <<"TEXT">>, <<>>)
   @@ "TZNAME" :> P("TimezoneName", <<"TEXT">>, <<"LANGUAGE">>)
   @@ "TZOFFSETFROM" :> P("TimezoneOffsetFrom", <<"UTC-OFFSET">>, <<>>)
   @@ "TZOFFSETTO" :> P("TimezoneOffsetTo", <<"UTC-OFFSET">>, <<>>)
   @@ "TZURL" :> P("TimezoneURL", <<"URI">>, <<>>)
   @@ "UID" :> P("UID", <<"TEXT">>, <<>>)
   @@ "URL" :> P("URL", <<"URI">>, <<>>)
   @@ "URI" :> P("URI", <<"URI">>, <<>>)
   @@ "VERSION" :> P("Version", <<"TEXT">>, <<>>)
   @@ "ALARM-AGENT" :> P("AlarmAgent", <<"TEXT">>, <<"URI", "ID", "AGENT-ID">>)
   @@ "ALARM-STATUS" :> E("AlarmStatus", <<"ACTIVE", "CANCELLED", "COMPLETED">>)
   @@ "LAST-TRIGGERED" :> P("LastTriggered", <<"DATE-TIME">>, <<>>)
   @@ "ACKNOWLEDGED" :> P("Acknowledged", <<"DATE-TIME">>, <<>>)
   @@ "PROXIMITY" :> P("Proximity", <<"TEXT">>, <<>>)
   @@ "GEO-LOCATION" :> P("GeoLocation", <<"URI">>, <<>>)
   @@ "DEFAULT-ALARM" :> P("DefaultAlarm", <<"BOOLEAN">>, <<>>) )

(* Parameters.  k: STR (quoting optional), QSTR (must be quoted), QSTRS     *)
(* (list of quoted), QURI, QURIS, OPEN (enumeration with an "unknown"),     *)
(* ENUM (closed enumeration), BOOL, FMT (media type).                       *)
LOCAL PD(g, k, e) == [g |-> g, k |-> k, e |-> e]
ParamDef ==
    ( "ALTREP" :> PD("AlternativeRepresentation", "QURI", <<>>)
   @@ "CN" :> PD("CommonName", "STR", <<>>)
   @@ "CUTYPE" :> PD("CalendarUserType", "OPEN", <<"INDIVIDUAL", "GROUP", "RESOURCE", "ROOM">>)
   @@ "DELEGATED-FROM" :> PD("Delegator", "QURIS", <<>>)
   @@ "DELEGATED-TO" :> PD("Delagatee", "QURIS", <<>>)
   @@ "DIR" :> PD("DirectoryEntry", "QSTR", <<>>)
   @@ "FMTTYPE" :> PD("FormatType", "FMT", <<>>)
   @@ "FBTYPE" :> PD("FreeBusyType", "OPEN", <<"FREE", "BUSY", "BUSY-UNAVAILABLE", "BUSY-TENTATIVE">>)
   @@ "LANGUAGE" :> PD("Language", "STR", <<>>)
   @@ "MEMBER" :> PD("Member", "QSTRS", <<>>)
   @@ "PARTSTAT" :> PD("ParticipationStatus", "OPEN",
         <<"NEEDS-ACTION", "ACCEPTED", "DECLINED", "TENTATIVE", "DELEGATED", "COMPLETED", "IN-PROCESS">>)
   @@ "RANGE" :> PD("Range", "ENUM", <<"THISANDFUTURE">>)
   @@ "RELTYPE" :> PD("RelationshipType", "OPEN", <<"PARENT", "CHILD", "SIBLING">>)
   @@ "ROLE" :> PD("ParticipationRole", "OPEN",
         <<"REQ-PARTICIPANT", "CHAIR", "OPT-PARTICIPANT", "NON-PARTICIPANT">>)
   @@ "RSVP" :> PD("RSVP", "BOOL", <<>>)
   @@ "SENT-BY" :> PD("SentBy", "QSTR", <<>>)
   @@ "URI" :> PD("URI", "QURI", <<>>)
   @@ "ID" :> PD("ID", "QSTR", <<>>)
   @@ "AGENT-ID" :> PD("AgentID", "QSTR", <<>>) )

(* Components: properties in encoding order.  c: "1" required, "?" once at  *)
(* most, "*" any number.  d: entry in PropDef (differs from the name n only *)
(* for the STATUS of an alarm).                                             *)
LOCAL R(n) == [n |-> n, d |-> n, c |-> "1"]
LOCAL O(n) == [n |-> n, d |-> n, c |-> "?"]
LOCAL M(n) == [n |-> n, d |-> n, c |-> "*"]
AlarmStatus == [n |-> "STATUS", d |-> "ALARM-STATUS", c |-> "?"]

(* Rules: <<"XOR", a, b>> not both; <<"REQ", a, b>> a only with b;          *)
(* <<"ALL", a, b>> both or neither; <<"ANY", a, b>> at least one (of        *)
(* components).                                                             *)
LOCAL C(g, ps, subs, rules) == [g |-> g, ps |-> ps, subs |-> subs, rules |-> rules]

EventMultis == <<M("ATTACH"), M("ATTENDEE"), M("CATEGORIES"), M("COMMENT"), M("CONTACT"), M("EXDATE"),
                 M("REQUEST-STATUS"), M("RELATED-TO"), M("RESOURCES"), M("RDATE")>>
AlarmTail == <<O("UID"), M("ALARM-AGENT"), AlarmStatus, M("LAST-TRIGGERED"), O("ACKNOWLEDGED"),
               O("PROXIMITY"), M("GEO-LOCATION"), O("RELATED-TO"), O("DEFAULT-ALARM")>>
ZonePart == <<R("DTSTART"), R("TZOFFSETTO"), R("TZOFFSETFROM"), O("RRULE"), M("COMMENT"), M("RDATE"),
              M("TZNAME")>>
GeoRule == <<"REQ", "GEO-LOCATION", "PROXIMITY">>
RepeatRule == <<"ALL", "DURATION", "REPEAT">>

CompDef ==
    ( "VCALENDAR" :> C("Calendar", <<R("VERSION"), R("PRODID")>>,
          <<"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE">>, <<>>)
   @@ "VEVENT" :> C("Event",
          <<R("DTSTAMP"), R("UID"), O("DTSTART"), O("CLASS"), O("CREATED"), O("DESCRIPTION"), O("GEO"),
            O("LAST-MODIFIED"), O("LOCATION"), O("ORGANIZER"), O("PRIORITY"), O("SEQUENCE"), O("STATUS"),
            O("SUMMARY"), O("TRANSP"), O("URL"), O("RECURRENCE-ID"), O("RRULE"), O("DTEND"),
            O("DURATION")>> \o EventMultis,
          <<"VALARM">>, <<<<"XOR", "DTEND", "DURATION">>>>)
   @@ "VTODO" :> C("Todo",
          <<R("DTSTAMP"), R("UID"), O("CLASS"), O("COMPLETED"), O("CREATED"), O("DESCRIPTION"),
            O("DTSTART"), O("GEO"), O("LAST-MODIFIED"), O("LOCATION"), O("ORGANIZER"),
            O("PERCENT-COMPLETE"), O("PRIORITY"), O("RECURRENCE-ID"), O("SEQUENCE"), O("STATUS"),
            O("SUMMARY"), O("URL"), O("DUE"), O("DURATION")>> \o EventMultis,
          <<"VALARM">>, <<<<"REQ", "DURATION", "DTSTART">>, <<"XOR", "DUE", "DURATION">>>>)
   @@ "VJOURNAL" :> C("Journal",
          <<R("DTSTAMP"), R("UID"), O("CLASS"), O("CREATED"), O("DTSTART"), O("LAST-MODIFIED"),
            O("ORGANIZER"), O("RECURRENCE-ID"), O("SEQUENCE"), O("STATUS"), O("SUMMARY"), O("URL"),
            O("RRULE"), M("ATTACH"), M("ATTENDEE"), M("CATEGORIES"), M("COMMENT"), M("CONTACT"),
            M("DESCRIPTION"), M("EXDATE"), M("REQUEST-STATUS"), M("RELATED-TO"), M("RESOURCES"),
            M("RDATE")>>,
          <<>>, <<>>)
   @@ "VFREEBUSY" :> C("FreeBusy",
          <<R("DTSTAMP"), R("UID"), O("CONTACT"), O("DTSTART"), O("DTEND"), O("ORGANIZER"), O("URL"),
            M("ATTENDEE"), M("COMMENT"), M("FREEBUSY"), M("REQUEST-STATUS")>>,
          <<>>, <<>>)
   @@ "VTIMEZONE" :> C("Timezone", <<R("TZID"), O("LAST-MODIFIED"), O("TZURL")>>,
          <<"STANDARD", "DAYLIGHT">>, <<<<"ANY", "STANDARD", "DAYLIGHT">>>>)
   @@ "STANDARD" :> C("Standard", ZonePart, <<>>, <<>>)
   @@ "DAYLIGHT" :> C("Daylight", ZonePart, <<>>, <<>>)
   @@ "VALARMAUDIO" :> C("Alarm",
          <<R("TRIGGER"), O("DURATION"), O("REPEAT"), M("ATTACH")>> \o AlarmTail, <<>>, <<GeoRule>>)
   @@ "VALARMDISPLAY" :> C("Alarm",
          <<R("DESCRIPTION"), R("TRIGGER"), O("DURATION"), O("REPEAT")>> \o AlarmTail, <<>>, <<GeoRule>>)
   @@ "VALARMEMAIL" :> C("Alarm",
          <<R("DESCRIPTION"), R("TRIGGER"), R("SUMMARY"), O("ATTENDEE"), O("DURATION"), O("REPEAT")>>
            \o AlarmTail, <<>>, <<GeoRule, RepeatRule>>)
   @@ "VALARMURI" :> C("Alarm",
          <<R("URI"), O("DURATION"), O("REPEAT")>> \o AlarmTail, <<>>, <<GeoRule, RepeatRule>>)
   @@ "VALARMNONE" :> C("Alarm", <<>>, <<>>, <<>>) )

Comps == DOMAIN CompDef
AlarmKinds == <<"VALARMAUDIO", "VALARMDISPLAY", "VALARMEMAIL", "VALARMURI", "VALARMNONE">>
AlarmKindSet == ToSet(AlarmKinds)
Actions == [a \in {"AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"} |-> "VALARM" \o a]
ActionOf(kind) == From(kind, 7)
\* Name in BEGIN and END lines.
WireName(kind) == IF kind \in AlarmKindSet THEN "VALARM" ELSE kind

\* Entry of a property in a component, or a record with c = "-" when it has none.
PropsOf == [k \in Comps |-> [n \in {CompDef[k].ps[i].n : i \in 1..Len(CompDef[k].ps)} |->
    CompDef[k].ps[CHOOSE i \in 1..Len(CompDef[k].ps) : CompDef[k].ps[i].n = n]]]
Required(k) == {n \in DOMAIN PropsOf[k] : PropsOf[k][n].c = "1"}

Sites == UNION {{<<k, n>> : n \in DOMAIN PropsOf[k]} : k \in Comps}

SchemaJson == [props |-> PropDef, params |-> ParamDef, comps |-> CompDef]
=============================================================================
