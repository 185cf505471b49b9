---------------------------- MODULE Vocabularies ----------------------------
(* The prefix and the namespace IRI under which each vocabulary is published. *)

Vocabulary(v) ==
  CASE v = "owl" -> \* owl: <http://www.w3.org/2002/07/owl#>
         << <<111,119,108,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,50,47,48,55,47,111,119,108,35>> >>
    [] v = "rdf" -> \* rdf: <http://www.w3.org/1999/02/22-rdf-syntax-ns#>
         << <<114,100,102,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,49,57,57,57,47,48,50,47,50,50,45,114,100,102,45,115,121,110,116,97,120,45,110,115,35>> >>
    [] v = "rdfs" -> \* rdfs: <http://www.w3.org/2000/01/rdf-schema#>
         << <<114,100,102,115,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,48,47,48,49,47,114,100,102,45,115,99,104,101,109,97,35>> >>
    [] v = "xsd" -> \* xsd: <http://www.w3.org/2001/XMLSchema#>
         << <<120,115,100,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,49,47,88,77,76,83,99,104,101,109,97,35>> >>
    [] v = "dcterms" -> \* dcterms: <http://purl.org/dc/terms/>
         << <<100,99,116,101,114,109,115,58>>,
            <<104,116,116,112,58,47,47,112,117,114,108,46,111,114,103,47,100,99,47,116,101,114,109,115,47>> >>
    [] v = "skos" -> \* skos: <http://www.w3.org/2004/02/skos/core#>
         << <<115,107,111,115,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,52,47,48,50,47,115,107,111,115,47,99,111,114,101,35>> >>
    [] v = "void" -> \* void: <http://rdfs.org/ns/void#>
         << <<118,111,105,100,58>>,
            <<104,116,116,112,58,47,47,114,100,102,115,46,111,114,103,47,110,115,47,118,111,105,100,35>> >>
    [] v = "foaf" -> \* foaf: <http://xmlns.com/foaf/0.1/>
         << <<102,111,97,102,58>>,
            <<104,116,116,112,58,47,47,120,109,108,110,115,46,99,111,109,47,102,111,97,102,47,48,46,49,47>> >>
    [] v = "cal" -> \* cal: <http://www.w3.org/2002/12/cal/ical#>
         << <<99,97,108,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,50,47,49,50,47,99,97,108,47,105,99,97,108,35>> >>
    [] v = "dbpedia" -> \* dbpedia: <http://dbpedia.org/ontology/>
         << <<100,98,112,101,100,105,97,58>>,
            <<104,116,116,112,58,47,47,100,98,112,101,100,105,97,46,111,114,103,47,111,110,116,111,108,111,103,121,47>> >>
    [] v = "dc" -> \* dc: <http://purl.org/dc/elements/1.1/>
         << <<100,99,58>>,
            <<104,116,116,112,58,47,47,112,117,114,108,46,111,114,103,47,100,99,47,101,108,101,109,101,110,116,115,47,49,46,49,47>> >>
    [] v = "doap" -> \* doap: <http://usefulinc.com/ns/doap#>
         << <<100,111,97,112,58>>,
            <<104,116,116,112,58,47,47,117,115,101,102,117,108,105,110,99,46,99,111,109,47,110,115,47,100,111,97,112,35>> >>
    [] v = "geonames" -> \* geonames: <http://www.geonames.org/ontology#>
         << <<103,101,111,110,97,109,101,115,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,103,101,111,110,97,109,101,115,46,111,114,103,47,111,110,116,111,108,111,103,121,35>> >>
    [] v = "isothes" -> \* isothes: <http://purl.org/iso25964/skos-thes#>
         << <<105,115,111,116,104,101,115,58>>,
            <<104,116,116,112,58,47,47,112,117,114,108,46,111,114,103,47,105,115,111,50,53,57,54,52,47,115,107,111,115,45,116,104,101,115,35>> >>
    [] v = "opengis" -> \* opengis: <http://www.opengis.net/ont/geosparql#>
         << <<111,112,101,110,103,105,115,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,111,112,101,110,103,105,115,46,110,101,116,47,111,110,116,47,103,101,111,115,112,97,114,113,108,35>> >>
    [] v = "org" -> \* org: <http://www.w3.org/ns/org#>
         << <<111,114,103,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,110,115,47,111,114,103,35>> >>
    [] v = "sioc" -> \* sioc: <http://rdfs.org/sioc/ns#>
         << <<115,105,111,99,58>>,
            <<104,116,116,112,58,47,47,114,100,102,115,46,111,114,103,47,115,105,111,99,47,110,115,35>> >>
    [] v = "skosxl" -> \* skosxl: <http://www.w3.org/2008/05/skos-xl#>
         << <<115,107,111,115,120,108,58>>,
            <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,50,48,48,56,47,48,53,47,115,107,111,115,45,120,108,35>> >>
    [] v = "vann" -> \* vann: <http://purl.org/vocab/vann/>
         << <<118,97,110,110,58>>,
            <<104,116,116,112,58,47,47,112,117,114,108,46,111,114,103,47,118,111,99,97,98,47,118,97,110,110,47>> >>
    [] v = "wot" -> \* wot: <http://xmlns.com/wot/0.1/>
         << <<119,111,116,58>>,
            <<104,116,116,112,58,47,47,120,109,108,110,115,46,99,111,109,47,119,111,116,47,48,46,49,47>> >>

Published == {"owl", "rdf", "rdfs", "xsd", "dcterms", "skos", "void", "foaf", "cal", "dbpedia", "dc", "doap", "geonames", "isothes", "opengis", "org", "sioc", "skosxl", "vann", "wot"}
=============================================================================
