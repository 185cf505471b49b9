------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* The terms of the vocabularies as they are published, by the name of the *)
(* function that gives each: what the name means in its vocabulary, and    *)
(* not what the code says.  The empty text is for a name that means        *)
(* nothing there.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
V == INSTANCE Vocabularies

Namespaces == [
  dcam |-> "http://purl.org/dc/dcam/",
  dctype |-> "http://purl.org/dc/dcmitype/",
  dc |-> "http://purl.org/dc/elements/1.1/",
  dcterms |-> "http://purl.org/dc/terms/",
  foaf |-> "http://xmlns.com/foaf/0.1/",
  geo |-> "http://www.w3.org/2003/01/geo/wgs84_pos#",
  owl |-> "http://www.w3.org/2002/07/owl#",
  rdf |-> "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
  rdfs |-> "http://www.w3.org/2000/01/rdf-schema#",
  skos |-> "http://www.w3.org/2004/02/skos/core#",
  skosxl |-> "http://www.w3.org/2008/05/skos-xl#",
  isothes |-> "http://purl.org/iso25964/skos-thes#",
  status |-> "http://www.w3.org/2003/06/sw-vocab-status/ns#",
  xsd |-> "http://www.w3.org/2001/XMLSchema#"]

Dcam == [
  vocabulary_encoding_scheme |-> "VocabularyEncodingScheme", domain_includes |-> "domainIncludes",
  member_of |-> "memberOf", range_includes |-> "rangeIncludes"]
Dctype == [
  collection |-> "Collection", dataset |-> "Dataset", event |-> "Event", image |-> "Image",
  interactive_resource |-> "InteractiveResource", moving_image |-> "MovingImage",
  physical_object |-> "PhysicalObject", service |-> "Service", software |-> "Software", sound |-> "Sound",
  still_image |-> "StillImage", text |-> "Text"]
Dc == [
  contributor |-> "contributor", coverage |-> "coverage", creator |-> "creator", date |-> "date",
  description |-> "description", format |-> "format", identifier |-> "identifier", language |-> "language",
  publisher |-> "publisher", relation |-> "relation", rights |-> "rights", source |-> "source",
  subject |-> "subject", title |-> "title", a_type |-> "type"]
Dcterms == [
  agent |-> "Agent", agent_class |-> "AgentClass", bibliographic_resource |-> "BibliographicResource",
  a_box |-> "Box", dcmi_type |-> "DCMIType", ddc_classify |-> "DDC", file_format |-> "FileFormat",
  frequency |-> "Frequency", imt_classify |-> "IMT", iso_3166 |-> "ISO3166", iso_639_2 |-> "ISO639-2",
  iso_639_3 |-> "ISO639-3", jurisdiction |-> "Jurisdiction", lcc_classify |-> "LCC",
  lcsh_classify |-> "LCSH", license_document |-> "LicenseDocument", linguistic_system |-> "LinguisticSystem",
  location |-> "Location", location_period_or_jurisdiction |-> "LocationPeriodOrJurisdiction",
  mesh_classify |-> "MESH", media_type |-> "MediaType", media_type_or_extent |-> "MediaTypeOrExtent",
  method_of_accrual |-> "MethodOfAccrual", method_of_instruction |-> "MethodOfInstruction",
  nlm_classify |-> "NLM", period |-> "Period", period_of_time |-> "PeriodOfTime",
  physical_medium |-> "PhysicalMedium", physical_resource |-> "PhysicalResource", point |-> "Point",
  policy |-> "Policy", rfc_1766 |-> "RFC1766", rfc_3066 |-> "RFC3066", rfc_4646 |-> "RFC4646",
  rfc_5646 |-> "RFC5646", rights_statement |-> "RightsStatement", size_or_duration |-> "SizeOrDuration",
  standard |-> "Standard", tgn_classify |-> "TGN", udc_classify |-> "UDC", uri |-> "URI",
  w3c_dtf |-> "W3CDTF", an_abstract |-> "abstract", access_rights |-> "accessRights",
  accrual_method |-> "accrualMethod", accrual_periodicity |-> "accrualPeriodicity",
  accrual_policy |-> "accrualPolicy", alternative |-> "alternative", audience |-> "audience",
  available |-> "available", bibliographic_citation |-> "bibliographicCitation",
  conforms_to |-> "conformsTo", contributor |-> "contributor", coverage |-> "coverage",
  created |-> "created", creator |-> "creator", date |-> "date", date_accepted |-> "dateAccepted",
  date_copyrighted |-> "dateCopyrighted", date_submitted |-> "dateSubmitted", description |-> "description",
  education_level |-> "educationLevel", extent |-> "extent", format |-> "format", has_format |-> "hasFormat",
  has_part |-> "hasPart", has_version |-> "hasVersion", identifier |-> "identifier",
  instructional_method |-> "instructionalMethod", is_format_of |-> "isFormatOf", is_part_of |-> "isPartOf",
  is_referenced_by |-> "isReferencedBy", is_replaced_by |-> "isReplacedBy",
  is_required_by |-> "isRequiredBy", is_version_of |-> "isVersionOf", issued |-> "issued",
  language |-> "language", license |-> "license", mediator |-> "mediator", medium |-> "medium",
  modified |-> "modified", provenance |-> "provenance", publisher |-> "publisher",
  references |-> "references", relation |-> "relation", replaces |-> "replaces", requires |-> "requires",
  rights |-> "rights", rights_holder |-> "rightsHolder", source |-> "source", spatial |-> "spatial",
  subject |-> "subject", temporal |-> "temporal", title |-> "title", a_type |-> "type", valid |-> "valid"]
Foaf == [
  agent |-> "Agent", person |-> "Person", name |-> "name", title |-> "title", img |-> "img",
  depiction |-> "depiction", depicts |-> "depicts", family_name |-> "familyName", given_name |-> "givenName",
  knows |-> "knows", based_near |-> "based_near", age |-> "age", made |-> "made", maker |-> "maker",
  primary_topic |-> "primaryTopic", primary_topic_of |-> "primaryTopicOf", project |-> "Project",
  organization |-> "Organization", group |-> "Group", member |-> "member", document |-> "Document",
  image |-> "Image", nick |-> "nick", mbox |-> "mbox", homepage |-> "homepage", weblog |-> "weblog",
  openid |-> "openid", jabber_id |-> "jabberID", mbox_sha1sum |-> "mbox_sha1sum", interest |-> "interest",
  topic_interest |-> "topic_interest", topic |-> "topic", page |-> "page",
  workplace_homepage |-> "workplaceHomepage", work_info_homepage |-> "workInfoHomepage",
  school_homepage |-> "schoolHomepage", publications |-> "publications",
  current_project |-> "currentProject", past_project |-> "pastProject", account |-> "account",
  online_account |-> "OnlineAccount", account_name |-> "accountName",
  account_service_homepage |-> "accountServiceHomepage",
  personal_profile_document |-> "PersonalProfileDocument", tipjar |-> "tipjar", sha1 |-> "sha1",
  thumbnail |-> "thumbnail", logo |-> "logo"]
Geo == [
  spatial_thing |-> "SpatialThing", temporal_thing |-> "TemporalThing", event |-> "Event", point |-> "Point",
  lat |-> "lat", location |-> "location", long |-> "long", alt |-> "alt", lat_long |-> "lat_long"]
Owl == [
  thing |-> "Thing", nothing |-> "Nothing", intersection_of |-> "intersectionOf", union_of |-> "unionOf",
  complement_of |-> "complementOf", one_of |-> "oneOf", restriction |-> "Restriction",
  on_property |-> "onProperty", on_class |-> "onClass", on_datatype |-> "onDatatype",
  all_values_from |-> "allValuesFrom", some_values_from |-> "someValuesFrom", has_value |-> "hasValue",
  has_self |-> "hasSelf", cardinality |-> "cardinality", qualified_cardinality |-> "qualifiedCardinality",
  max_cardinality |-> "maxCardinality", max_qualified_cardinality |-> "maxQualifiedCardinality",
  min_cardinality |-> "minCardinality", min_qualified_cardinality |-> "minQualifiedCardinality",
  datatype_complement_of |-> "datatypeComplementOf", with_restrictions |-> "withRestrictions",
  equivalent_class |-> "equivalentClass", disjoint_with |-> "disjointWith",
  all_disjoint_classes |-> "AllDisjointClasses", members |-> "members",
  disjoint_union_of |-> "disjointUnionOf", property_chain_axiom |-> "propertyChainAxiom",
  equivalent_property |-> "equivalentProperty", property_disjoint_with |-> "propertyDisjointWith",
  all_disjoint_properties |-> "AllDisjointProperties", inverse_of |-> "inverseOf",
  functional_property |-> "FunctionalProperty", inverse_functional_property |-> "InverseFunctionalProperty",
  reflexive_property |-> "ReflexiveProperty", irreflexive_property |-> "IrreflexiveProperty",
  symmetric_property |-> "SymmetricProperty", asymmetric_property |-> "AsymmetricProperty",
  transitive_property |-> "TransitiveProperty", same_as |-> "sameAs", different_from |-> "differentFrom",
  all_different |-> "AllDifferent", negative_property_assertion |-> "NegativePropertyAssertion",
  source_individual |-> "sourceIndividual", assertion_property |-> "assertionProperty",
  target_individual |-> "targetIndividual", target_value |-> "targetValue", has_key |-> "hasKey",
  class |-> "Class", object_property |-> "ObjectProperty", datatype_property |-> "DatatypeProperty",
  annotation_property |-> "AnnotationProperty", named_individual |-> "NamedIndividual", axiom |-> "Axiom",
  annotated_source |-> "annotatedSource", annotated_property |-> "annotatedProperty",
  annotated_target |-> "annotatedTarget", version_info |-> "versionInfo", deprecated |-> "deprecated",
  backward_compatible_with |-> "backwardCompatibleWith", incompatible_with |-> "incompatibleWith",
  prior_version |-> "priorVersion", ontology |-> "Ontology", version |-> "", imports |-> "imports",
  rational |-> "rational", real |-> "real", distinct_members |-> "distinctMembers",
  ontology_property |-> "OntologyProperty", deprecated_class |-> "DeprecatedClass",
  deprecated_property |-> "DeprecatedProperty"]
Rdf == [
  html |-> "HTML", lang_string |-> "langString", plain_literal |-> "PlainLiteral", a_type |-> "type",
  property |-> "Property", statement |-> "Statement", subject |-> "subject", predicate |-> "predicate",
  object |-> "object", bag |-> "Bag", seq |-> "Seq", alt |-> "Alt", value |-> "value", list |-> "List",
  nil |-> "nil", first |-> "first", rest |-> "rest", li |-> "li", xml_literal |-> "XMLLiteral",
  json |-> "JSON", compound_literal |-> "CompoundLiteral", language |-> "language",
  direction |-> "direction"]
Rdfs == [
  resource |-> "Resource", class |-> "Class", literal |-> "Literal", data_type |-> "Datatype",
  lang_string |-> "langString", html_literal |-> "HTML", xml_literal |-> "XMLLiteral",
  property |-> "Property", range |-> "range", domain |-> "domain", subclass_of |-> "subClassOf",
  subproperty_of |-> "subPropertyOf", label |-> "label", comment |-> "comment", container |-> "Container",
  container_membership_property |-> "ContainerMembershipProperty", member |-> "member",
  see_also |-> "seeAlso", is_defined_by |-> "isDefinedBy", value |-> "value"]
Skos == [
  collection |-> "Collection", concept |-> "Concept", concept_scheme |-> "ConceptScheme",
  ordered_collection |-> "OrderedCollection", alt_label |-> "altLabel", broad_match |-> "broadMatch",
  broader |-> "broader", broader_transitive |-> "broaderTransitive", change_note |-> "changeNote",
  close_match |-> "closeMatch", definition |-> "definition", editorial_note |-> "editorialNote",
  exact_match |-> "exactMatch", example |-> "example", has_top_concept |-> "hasTopConcept",
  hidden_label |-> "hiddenLabel", history_note |-> "historyNote", in_scheme |-> "inScheme",
  mapping_relation |-> "mappingRelation", member |-> "member", member_list |-> "memberList",
  narrow_match |-> "narrowMatch", narrower |-> "narrower", narrower_transitive |-> "narrowerTransitive",
  notation |-> "notation", note |-> "note", pref_label |-> "prefLabel", related |-> "related",
  related_match |-> "relatedMatch", scope_note |-> "scopeNote", semantic_relation |-> "semanticRelation",
  top_concept_of |-> "topConceptOf"]
Skosxl == [
  label |-> "Label", literal_form |-> "literalForm", pref_label |-> "prefLabel", alt_label |-> "altLabel",
  label_relation |-> "labelRelation"]
Isothes == [
  compound_equivalence |-> "CompoundEquivalence", concept_group |-> "ConceptGroup",
  preferred_term |-> "PreferredTerm", thesaurus_array |-> "ThesaurusArray",
  micro_thesaurus_of |-> "microThesaurusOf", plus_uf_term |-> "plusUFTerm", plus_use_term |-> "plusUseTerm",
  sub_group |-> "subGroup", subordinate_array |-> "subordinateArray", super_group |-> "superGroup",
  super_ordinate |-> "superOrdinate", broader_generic |-> "broaderGeneric",
  broader_instantial |-> "broaderInstantial", broader_partitive |-> "broaderPartitive",
  narrower_generic |-> "narrowerGeneric", narrower_instantial |-> "narrowerInstantial",
  narrower_partitive |-> "narrowerPartitive"]
Status == [
  term_status |-> "term_status"]
Xsd == [
  any_uri |-> "anyURI", base64_binary |-> "base64Binary", date |-> "date", date_time |-> "dateTime",
  date_time_stamp |-> "dateTimeStamp", day_time_duration |-> "dayTimeDuration", decimal |-> "decimal",
  duration |-> "duration", entity |-> "ENTITY", g_day |-> "gDay", g_month |-> "gMonth",
  g_month_day |-> "gMonthDay", g_year |-> "gYear", g_year_month |-> "gYearMonth", hex_binary |-> "hexBinary",
  id |-> "ID", id_ref |-> "IDREF", id_refs |-> "IDREFS", integer |-> "integer", language |-> "language",
  name |-> "Name", nc_name |-> "NCName", nm_token |-> "NMTOKEN", nm_tokens |-> "NMTOKENS",
  non_negative_integer |-> "nonNegativeInteger", non_positive_integer |-> "nonPositiveInteger",
  normalized_string |-> "normalizedString", notation |-> "NOTATION", ns |-> "",
  positive_integer |-> "positiveInteger", q_name |-> "QName", time |-> "time", token |-> "token",
  unsigned_byte |-> "unsignedByte", unsigned_int |-> "unsignedInt", unsigned_long |-> "unsignedLong",
  unsigned_short |-> "unsignedShort", boolean |-> "boolean", byte |-> "byte", double |-> "double",
  float |-> "float", int |-> "int", long |-> "long", short |-> "short", string |-> "string",
  year_month_duration |-> "yearMonthDuration"]

VocabularyOf(v) ==
  CASE v = "dcam" -> Dcam
    [] v = "dctype" -> Dctype
    [] v = "dc" -> Dc
    [] v = "dcterms" -> Dcterms
    [] v = "foaf" -> Foaf
    [] v = "geo" -> Geo
    [] v = "owl" -> Owl
    [] v = "rdf" -> Rdf
    [] v = "rdfs" -> Rdfs
    [] v = "skos" -> Skos
    [] v = "skosxl" -> Skosxl
    [] v = "isothes" -> Isothes
    [] v = "status" -> Status
    [] v = "xsd" -> Xsd

\* Terms that are named in one vocabulary's module but are another's.
RdfTerms == {"lang_string", "html_literal", "xml_literal", "property", "value"}
Home(v, f) == IF v = "rdfs" /\ f \in RdfTerms THEN "rdf" ELSE v
Term(v, f) == VocabularyOf(v)[f]
Means(v, f) == Term(v, f) # ""
TermIri(v, f) == Namespaces[Home(v, f)] \o Term(v, f)
Qualified(v, f) == Home(v, f) \o ":" \o Term(v, f)
Stages == {"archaic", "deprecated", "proposed", "stable", "testing", "unstable"}

(***************************************************************************)
(* Namespaces that a user of the library declares, see harness/names.      *)
(***************************************************************************)
Declared == [
  p |-> <<"p", "heep://schema/com/p#", [foo |-> "Foo", bar |-> "Bar"]>>,
  q |-> <<"q-1", "http://e.org:8080/a/b/", [dash |-> "a-b", dot |-> "a.b", digit |-> "9", under |-> "_x"]>>,
  r |-> <<"r", "https://e.org/x?y=z#", [one |-> "one"]>>]

TermsWant(o) ==
  CASE o.op = "names.term" ->
         IF Means(o.v, o.f)
         THEN << TermIri(o.v, o.f), Term(o.v, o.f), Qualified(o.v, o.f), Qualified(o.v, o.f), TermIri(o.v, o.f) >>
         ELSE "no such term"
    [] o.op = "names.of" -> << o.v, Namespaces[o.v], Namespaces[o.v] >>
    [] o.op = "names.member" ->
         << Namespaces.rdf \o "_" \o ToString(o.n), "rdf:_" \o ToString(o.n) >>
    [] o.op = "names.stage" -> o.v
    [] o.op = "names.declared" ->
         LET d == Declared[o.v] IN
         << d[1], d[2], d[2], d[2] \o d[3][o.f], d[3][o.f], d[1] \o ":" \o d[3][o.f] >>
    [] o.op = "names.vocabulary" ->
         LET v == V!Vocabulary(o.v) IN
         << SubSeq(v[1], 1, Len(v[1]) - 1), v[2], v[1], v[2] >>
\* Every thread sees the same.
TermsConf(o) ==
  CASE o.op = "names.term" -> Means(o.v, o.f) /\ \A i \in 1..Len(o.res) : o.res[i] = TermsWant(o)
    [] o.op = "names.stage" -> o.res = <<o.v>>
    [] OTHER -> o.res = TermsWant(o)
=============================================================================
